// reference state machine: what a configuration means
#ifndef SM_H
#define SM_H
#include "mc.h"
#include <deque>
#include <klepsydra/state_machine/config_state_machine.h>
#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/state_impl.h>
#include <klepsydra/state_machine/state_machine_impl.h>
#include <klepsydra/state_machine/state_machine_listener.h>
#include <klepsydra/state_machine/transition_impl.h>
#include <map>
#include <string>
#include <vector>
struct Note
{
    std::string state;
    bool changed;
    bool operator==(const Note &o) const { return state == o.state && changed == o.changed; }
};
inline std::string strN(const std::vector<Note> &v)
{
    std::string s;
    for (auto &n : v)
        s += n.state + (n.changed ? "! " : "  ");
    return s;
}
struct RefMachine
{
    kpsr::fsm::ConfigStateMachine c;
    std::string cur, init;
    std::deque<std::string> q;
    bool started = false;
    int observers = 0;
    std::vector<Note> out;
    explicit RefMachine(const kpsr::fsm::ConfigStateMachine &c) : c(c)
    {
        if (!c.states.empty())
            init = cur = c.states[0].id;
    }
    void tell(bool changed)
    {
        for (int i = 0; i < observers; i++)
            out.push_back({c.id + ":" + cur, changed});
    }
    void start()
    {
        started = true;
        tell(true);
    }
    void stop() { started = false; }
    void reset()
    {
        started = false;
        cur = init;
    }
    void enqueue(const std::string &e)
    {
        if (started)
            q.push_back(e);
    }
    // one step: queued events are taken in order up to and including the first that moves the machine
    void update()
    {
        if (!started)
            return;
        bool known = false; // a state that is not configured has no steps
        for (auto &s : c.states)
            known = known || s.id == cur;
        if (!known)
            return;
        bool changed = false;
        while (!q.empty() && !changed) {
            std::string e = q.front();
            q.pop_front();
            for (auto &s : c.states)
                if (s.id == cur) {
                    for (auto &t : s.transitions)
                        if (t.event == e) {
                            cur = t.destinationId;
                            changed = true;
                            break;
                        }
                    break;
                }
        }
        tell(changed);
    }
};
inline std::string text(const kpsr::fsm::ConfigStateMachine &c)
{
    std::string s = c.id + "{";
    for (auto &st : c.states) {
        s += st.id + "(";
        for (auto &t : st.transitions)
            s += t.event + ">" + t.destinationId + " ";
        s += ") ";
    }
    return s + "}";
}
#endif
