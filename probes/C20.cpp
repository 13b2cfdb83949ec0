#include "probe.h"
namespace {
struct Throw {
    template <class... T> void operator()(T&...) const { throw 1; }
};
struct S1 {
    static constexpr auto on_exit() { return Throw {}; }
};
struct Custom {
    explicit Custom(int) {}
};
struct Make {
    template <class E, class S> auto operator()(E&, S&) const { return std::make_unique<Custom>(1); }
};
struct Act {
    template <class... T> void operator()(T&...) const { note("left"); }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e1> / hsm::create_state(Make {}) = hsm::state<Custom>,
            hsm::state<Custom> + hsm::event<e2> / Act {} = hsm::state<S1>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    try {
        sm.process_event(e1 {});
    } catch (int) {
        note("thrown");
    }
    sm.process_event(e2 {});
}
Add a { "exception-before-creation", "thrown left", run };
}
