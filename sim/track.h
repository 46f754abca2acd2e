// Instrumented payloads: every construction and destruction of an element is accounted for.
#pragma once
#include "sim.h"

namespace track {
    struct Book {
        std::map<const void *, sim::i64> live;    // address -> serial number
        sim::i64 born = 0, died = 0;
        sim::i64 ctor_calls = 0;    // since armed
        sim::i64 ctor_fail_at = 0;  // 0: never
        const char * lbl_over = "U03/constructed-over-a-live-object";
        const char * lbl_twice = "U03/destroyed-what-is-not-there";
    };
    inline Book & book()
    {
        static Book b;
        return b;
    }
    inline void reset(const char * over, const char * twice)
    {
        sim::Host h;
        book() = Book {};
        book().lbl_over = over;
        book().lbl_twice = twice;
    }
    // call before anything else in a constructor that may be made to throw
    inline void may_throw()
    {
        auto & b = book();
        ++b.ctor_calls;
        if (b.ctor_fail_at && b.ctor_calls == b.ctor_fail_at) {
            sim::Host h;
            sim::fault("constructor-exception");
            throw sim::InjectedFault();
        }
    }
    inline void born(const void * p)
    {
        sim::Host h;
        auto & b = book();
        if (!b.live.emplace(p, b.born).second)
            sim::fail(b.lbl_over, "an element was constructed where a live element already is");
        ++b.born;
    }
    inline void died(const void * p)
    {
        sim::Host h;
        auto & b = book();
        if (!b.live.erase(p))
            sim::fail(b.lbl_twice, "a destructor ran where there is no live element");
        ++b.died;
    }
    inline bool alive(const void * p) { return book().live.count(p) != 0; }
    inline void arm(const sim::Op & op)
    {
        book().ctor_calls = 0;
        book().ctor_fail_at = op.fk == sim::F_CTOR ? (op.fn < 1 ? 1 : op.fn) : 0;
    }
    inline void disarm() { book().ctor_fail_at = 0; }
}    // namespace track
