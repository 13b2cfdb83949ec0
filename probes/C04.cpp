#include "probe.h"
namespace pseudo {
struct S1 {};
struct A {
    static constexpr auto on_entry() { return Entry { "A" }; }
    static constexpr auto on_exit() { return Exit { "A" }; }
};
struct B {
    static constexpr auto on_entry() { return Entry { "B" }; }
    static constexpr auto on_exit() { return Exit { "B" }; }
};
struct Sub {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(*hsm::state<A> + hsm::event<e1> = hsm::state<B>, hsm::state<B> + hsm::event<e1> = hsm::state<A>);
    }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e2> = hsm::entry<Sub, B>,
            hsm::state<S1> + hsm::event<e3> = hsm::direct<Sub, B>,
            hsm::direct<Sub, B> + hsm::event<e4> = hsm::state<S1>);
    }
};
void entryPoint()
{
    hsm::sm<Root> sm;
    sm.process_event(e2 {});
}
void directTarget()
{
    hsm::sm<Root> sm;
    sm.process_event(e3 {});
}
void directSource()
{
    hsm::sm<Root> sm;
    sm.process_event(e3 {});
    rec.clear();
    sm.process_event(e4 {});
}
Add a { "entry-point-target", "entry-B", entryPoint };
Add b { "direct-target", "entry-B", directTarget };
Add c { "direct-source", "exit-B", directSource };
}
namespace hist {
struct S1 {};
struct A {
    static constexpr const char* name = "A";
};
struct B {
    static constexpr const char* name = "B";
};
struct Sub {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<A> + hsm::event<e1> = hsm::state<B>); }
};
struct Report {
    template <class E, class S, class T> void operator()(E&, S&, T&) const { note(std::string("target-") + T::name); }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            *hsm::state<S1> + hsm::event<e2> = hsm::state<Sub>,
            hsm::state<S1> + hsm::event<e3> / Report {} = hsm::history<Sub>,
            hsm::state<Sub> + hsm::event<e4> = hsm::state<S1>);
    }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e2 {});
    sm.process_event(e1 {});
    sm.process_event(e4 {});
    sm.process_event(e3 {});
}
Add a { "history-target-object", "target-B", run };
}
namespace regions {
struct S1 {};
struct A {
    static constexpr auto on_entry() { return Entry { "A" }; }
};
struct B {
    static constexpr auto on_entry() { return Entry { "B" }; }
};
struct Sub {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(*hsm::state<A> + hsm::event<e1> = hsm::state<A>, *hsm::state<B> + hsm::event<e1> = hsm::state<B>);
    }
};
struct Root {
    static constexpr auto make_transition_table() { return hsm::transition_table(*hsm::state<S1> + hsm::event<e2> = hsm::state<Sub>); }
};
void run()
{
    hsm::sm<Root> sm;
    sm.process_event(e2 {});
}
Add a { "entry-of-second-region", "entry-A entry-B", run };
}
