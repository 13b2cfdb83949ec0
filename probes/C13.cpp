#include "probe.h"
namespace {
struct S1 {};
struct Custom {
    explicit Custom(int) {}
};
struct Guard {
    template <class... T> bool operator()(T&...) const { return true; }
};
struct Make {
    template <class E, class S> auto operator()(E&, S&) const { return std::make_unique<Custom>(1); }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(*hsm::state<S1> + hsm::event<e1>[Guard {}] / hsm::create_state(Make {}) = hsm::state<Custom>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e1 {});
    note("created");
}
Add a { "guard-before-creation", "created", run };
}
