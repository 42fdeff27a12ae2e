// Drives coil's containers: common part of the interpreters (see cont_driver.cpp).
#pragma once
#include "vh.h"

#include "coil/Coil.h"
#include "coil/detail/Expected.h"
#include "coil/detail/Optional.h"
#include "coil/detail/String.h"
#include "coil/detail/StringView.h"
#include "coil/detail/UniquePtr.h"
#include "coil/detail/UnorderedMap.h"
#include "coil/detail/Vector.h"

#include <map>
#include <new>
#include <memory>
#include <set>

namespace ct
{
    using namespace vh;
    using Op = std::vector<Bytes>;

    constexpr int Slots = 4;

    // faults to come: the copy or default construction of an element, or the allocation, that fails (0: none)
    struct Fault
    {
    };
    struct Fuse
    {
        long copies = 0, allocs = 0;
        bool burnt = false;

        void off() { copies = allocs = 0; }
        void copying()
        {
            if (copies > 0 && --copies == 0)
            {
                burnt = true;
                throw Fault{};
            }
        }
        void allocating()
        {
            if (allocs > 0 && --allocs == 0)
            {
                burnt = true;
                throw std::bad_alloc{};
            }
        }
    };
    extern Fuse fuse;

    // the places where tracked objects live, and misuses of them
    struct Tracker
    {
        std::set<void const*> live;
        int bad = 0; // constructed over a live object, destroyed twice, or used while not alive

        void born(void const* p)
        {
            long allocs = fuse.allocs;
            fuse.allocs = 0;
            bad += !live.insert(p).second;
            fuse.allocs = allocs;
        }
        void died(void const* p) { bad += live.erase(p) == 0; }
        void used(void const* p) { bad += live.count(p) == 0; }
    };
    extern Tracker tracker;


    // an object that owns memory and knows where it lives; moved-from ones hold -1 (moves never fail)
    inline int* newCell(int v)
    {
        int* p = static_cast<int*>(malloc(sizeof(int)));
        *p = v;
        return p;
    }
    template<int Kind>
    struct Elem
    {
        int* cell;
        Elem* self;

        Elem() : Elem((fuse.copying(), 0)) {}
        Elem(int v) : cell(newCell(v)), self(this) { tracker.born(this); }
        Elem(Elem const& rhs) : cell((fuse.copying(), newCell(*rhs.cell))), self(this)
        {
            tracker.used(&rhs);
            tracker.born(this);
        }
        Elem(Elem&& rhs) : cell(newCell(*rhs.cell)), self(this)
        {
            tracker.used(&rhs);
            tracker.born(this);
            *rhs.cell = -1;
        }
        ~Elem()
        {
            tracker.bad += self != this;
            tracker.died(this);
            free(cell);
        }
        Elem& operator=(Elem const& rhs)
        {
            fuse.copying();
            tracker.used(this);
            tracker.used(&rhs);
            *cell = *rhs.cell;
            return *this;
        }
        Elem& operator=(Elem&& rhs)
        {
            tracker.used(this);
            tracker.used(&rhs);
            int v = *rhs.cell;
            *rhs.cell = -1;
            *cell = v;
            return *this;
        }
        int get() const
        {
            tracker.used(this);
            tracker.bad += self != this;
            return *cell;
        }
        bool operator==(Elem const& rhs) const { return get() == rhs.get(); }
        bool operator!=(Elem const& rhs) const { return get() != rhs.get(); }
        bool operator==(int v) const { return get() == v; }
    };

    extern Bytes ev;
    extern int per; // tracked objects per element

    inline void begin(Op const& op)
    {
        fuse.off();
        if (!ev.empty())
            ev += ',';
        ev += "{\"e\":\"" + op[0] + "\"";
    }
    inline void field(char const* name, long v) { ev += Bytes(",\"") + name + "\":" + std::to_string(v); }
    inline void field(char const* name, bool v) { ev += Bytes(",\"") + name + "\":" + (v ? "true" : "false"); }
    inline void field(char const* name, Bytes const& json) { ev += Bytes(",\"") + name + "\":" + json; }
    inline Bytes text(Bytes const& b)
    {
        Bytes o;
        putBytes(o, b);
        return o;
    }
    inline Bytes list(std::vector<int> const& v)
    {
        Bytes o = "[";
        for (size_t i = 0; i < v.size(); i++)
            o += (i ? "," : "") + std::to_string(v[i]);
        return o + "]";
    }
    // different readings of what should be the same
    struct Ways
    {
        std::vector<Bytes> seen;
        void add(Bytes const& w)
        {
            for (auto& s : seen)
                if (s == w)
                    return;
            seen.push_back(w);
        }
        Bytes json() const
        {
            Bytes o = "[";
            for (size_t i = 0; i < seen.size(); i++)
                o += (i ? "," : "") + seen[i];
            return o + "]";
        }
    };
    inline void end()
    {
        field("alive", static_cast<long>(tracker.live.size()));
        field("bad", static_cast<long>(tracker.bad));
        field("per", static_cast<long>(per));
        ev += '}';
    }
    inline int num(Op const& op, size_t i) { return i < op.size() ? atoi(op[i].c_str()) : 0; }

    struct Container
    {
        virtual ~Container() = default;
        virtual void run(Op const& op) = 0; // writes no event if the operation makes no sense
        virtual void finish() = 0;          // destroys what is left, with an event for each
        virtual void done() = 0;            // completes an event with what all slots show
        // the operation failed
        void threw(Op const& op)
        {
            begin({"threw"});
            field("op", "\"" + op[0] + "\"");
            field("d", static_cast<long>((num(op, 1) & 3) + 1));
            field("s", static_cast<long>((num(op, 2) & 3) + 1));
            field("n", static_cast<long>(num(op, 2)));
            field("burnt", fuse.burnt);
            done();
        }
    };
    using Maker = Container* (*)();
    std::map<Bytes, Maker>& makers();
    struct AddMaker
    {
        AddMaker(char const* n, Maker m) { makers()[n] = m; }
    };
}
