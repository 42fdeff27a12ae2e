// coil::UniquePtr
#include "cont_core.h"

namespace ct
{
    static std::vector<int> g_destroyed;

    struct Other
    {
        virtual ~Other() { pad = 0; }
        int pad = 7;
    };
    struct Base
    {
        int id;
        Elem<2> e;
        Base(int i) : id(i), e(i) {}
        virtual ~Base() { g_destroyed.push_back(id); }
        virtual int read() const { return e.get(); }
    };
    // its Base does not lie at its start
    struct Derived : Other, Base
    {
        int copy;
        Derived(int i) : Base(i), copy(i) {}
        ~Derived() override { copy = 0; }
        int read() const override { return copy == id && pad == 7 ? e.get() : -99; }
    };

    struct Pointers : Container
    {
        std::unique_ptr<coil::UniquePtr<Derived>> d[2];
        std::unique_ptr<coil::UniquePtr<Base>> b[2];
        int next = 1;

        template<typename P>
        static Bytes dump(P& x)
        {
            P const& c = x;
            Ways w;
            auto id = [&](auto* p) { w.add(std::to_string(p ? p->read() == p->id ? p->id : -99 : 0)); };
            id(c.get());
            id(x.get());
            if (c)
            {
                id(&*c);
                id(&*x);
                id(c.operator->());
                id(x.operator->());
            }
            else
                w.add("0");
            return w.json();
        }
        void done() override
        {
            Bytes o = "[";
            for (int i = 0; i < 2; i++)
                o += Bytes(i ? "," : "") + "[" + (d[i] ? dump(*d[i]) : "") + "]";
            for (int i = 0; i < 2; i++)
                o += Bytes(",") + "[" + (b[i] ? dump(*b[i]) : "") + "]";
            field("all", o + "]");
            field("gone", list(g_destroyed));
            g_destroyed.clear();
            end();
        }
        // the operations among pointers of one type
        template<typename T>
        bool same(Op const& op, std::unique_ptr<coil::UniquePtr<T>>& x, std::unique_ptr<coil::UniquePtr<T>>& y)
        {
            if (op[0] == "mctor" && !x && y)
                x = std::make_unique<coil::UniquePtr<T>>(coil::move(*y));
            else if (op[0] == "mas" && x && y)
                *x = coil::move(*y);
            else
                return false;
            return true;
        }
        void run(Op const& op) override
        {
            Bytes const& e = op[0];
            int a = num(op, 1) & 3, s = num(op, 2) & 3;
            bool der = a < 2;
            bool live = der ? !!d[a] : !!b[a - 2];
            auto head = [&] {
                begin(op);
                field("s", static_cast<long>(a + 1));
            };
            if (e == "make" && !live)
            {
                bool viaNew = op.size() > 2 && op[2] == "new";
                int id = next++;
                if (der)
                    d[a] = viaNew ? std::make_unique<coil::UniquePtr<Derived>>(new Derived(id)) : std::make_unique<coil::UniquePtr<Derived>>(coil::makeUnique<Derived>(id));
                else
                    b[a - 2] = viaNew ? std::make_unique<coil::UniquePtr<Base>>(new Base(id)) : std::make_unique<coil::UniquePtr<Base>>(coil::makeUnique<Base>(id));
                head();
                field("id", static_cast<long>(id));
            }
            else if (e == "set" && live) // a new object for an existing pointer
            {
                int id = next++;
                if (der)
                    *d[a] = coil::makeUnique<Derived>(id);
                else if (op.size() > 2 && op[2] == "conv")
                    *b[a - 2] = coil::makeUnique<Derived>(id);
                else
                    *b[a - 2] = coil::makeUnique<Base>(id);
                head();
                field("id", static_cast<long>(id));
            }
            else if (e == "unset" && live) // an existing pointer is assigned none
            {
                bool null = op.size() > 2 && op[2] == "nullptr";
                if (der)
                    *d[a] = null ? coil::UniquePtr<Derived>{nullptr} : coil::UniquePtr<Derived>{};
                else if (op.size() > 2 && op[2] == "conv")
                    *b[a - 2] = coil::UniquePtr<Derived>{};
                else
                    *b[a - 2] = coil::UniquePtr<Base>{nullptr};
                head();
            }
            else if (e == "null" && !live)
            {
                if (der)
                    d[a] = std::make_unique<coil::UniquePtr<Derived>>();
                else
                    b[a - 2] = std::make_unique<coil::UniquePtr<Base>>(nullptr);
                head();
            }
            else if (e == "mctor" || e == "mas")
            {
                if (der != (s < 2))
                    return;
                if (!(der ? same(op, d[a], d[s]) : same(op, b[a - 2], b[s - 2])))
                    return;
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>(s + 1));
            }
            else if (e == "conv" || e == "cas")
            {
                if (der || s > 1 || !d[s] || (e == "conv") == live)
                    return;
                if (e == "conv")
                    b[a - 2] = std::make_unique<coil::UniquePtr<Base>>(static_cast<coil::UniquePtr<Base>>(coil::move(*d[s])));
                else
                    *b[a - 2] = coil::move(*d[s]);
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>(s + 1));
            }
            else if (e == "drop" && live)
            {
                if (der)
                    d[a].reset();
                else
                    b[a - 2].reset();
                head();
            }
            else
                return;
            done();
        }
        void finish() override
        {
            for (int i = 0; i < Slots; i++)
                run({"drop", std::to_string(i)});
        }
    };

    static AddMaker a1{"ptr", [] {
                           g_destroyed.clear();
                           return static_cast<Container*>(new Pointers);
                       }};
}
