// coil::Optional and coil::Expected
#include "cont_core.h"

namespace ct
{
    using T = Elem<0>;
    using E = Elem<1>;

    static Bytes ways(std::initializer_list<bool> v)
    {
        Ways w;
        for (bool b : v)
            w.add(b ? "true" : "false");
        return w.json();
    }
    static Bytes nums(std::initializer_list<int> v)
    {
        Ways w;
        for (int b : v)
            w.add(std::to_string(b));
        return w.json();
    }

    struct Optionals : Container
    {
        using O = coil::Optional<T>;
        std::unique_ptr<O> v[Slots];

        static Bytes dump(O& x)
        {
            O const& c = x;
            bool has = c.hasValue();
            Bytes vals = "[]";
            if (has)
                vals = nums({(*c).get(), (*x).get(), c->get(), x->get()});
            return "{\"has\":" + ways({has, static_cast<bool>(c), x ? true : false}) + ",\"v\":" + vals + "}";
        }
        void done() override
        {
            Bytes o = "[";
            for (int i = 0; i < Slots; i++)
                o += Bytes(i ? "," : "") + "[" + (v[i] ? dump(*v[i]) : "") + "]";
            field("all", o + "]");
            end();
        }
        void run(Op const& op) override
        {
            Bytes const& e = op[0];
            int a = num(op, 1) & 3, b = num(op, 2);
            O* x = v[a].get();
            O* y = v[b & 3].get();
            Bytes how = op.size() > 3 ? op[3] : "";
            auto slots = [&] {
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>((b & 3) + 1));
            };
            auto one = [&](char const* n = nullptr) {
                begin(op);
                field("s", static_cast<long>(a + 1));
                if (n)
                    field(n, static_cast<long>(b));
            };
            if (e == "none" && !x)
                v[a] = std::make_unique<O>(), one();
            else if (e == "val" && !x)
            {
                {
                    T t{b};
                    v[a] = how == "copy" ? std::make_unique<O>(static_cast<T const&>(t)) : std::make_unique<O>(coil::move(t));
                }
                one("v");
            }
            else if (e == "cctor" && !x && y)
                v[a] = std::make_unique<O>(static_cast<O const&>(*y)), slots();
            else if (e == "mctor" && !x && y)
                v[a] = std::make_unique<O>(coil::move(*y)), slots();
            else if (e == "cas" && x && y)
            {
                O& r = *x = static_cast<O const&>(*y);
                slots();
                field("self", &r == x);
            }
            else if (e == "mas" && x && y)
            {
                O& r = *x = coil::move(*y);
                slots();
                field("self", &r == x);
            }
            else if (e == "set" && x)
            {
                {
                    T t{b};
                    if (how == "copy")
                        *x = t;
                    else if (how == "own" && x->hasValue())
                    {
                        fuse.off(); // (it would fail with half of this done)
                        **x = T{b};
                        *x = **x; // (given its own value)
                    }
                    else
                        *x = coil::move(t);
                }
                one("v");
            }
            else if (e == "reset" && x)
                *x = O{}, one();
            else if (e == "put" && x && x->hasValue())
            {
                {
                    T t{b};
                    how == "arrow" ? void(*x->operator->() = t) : void(**x = t);
                }
                one("v");
            }
            else if (e == "eq" && x && y)
            {
                slots();
                O const &l = *x, &r = *y;
                field("eq", ways({l == r, r == l, !(l != r), !(r != l)}));
            }
            else if (e == "eqv" && x)
            {
                Bytes w;
                {
                    T t{b};
                    O const& l = *x;
                    w = ways({l == t, l == b, !(l != t), !(l != b)});
                }
                one("v");
                field("eq", w);
            }
            else if (e == "drop" && x)
                v[a].reset(), one();
            else
                return;
            done();
        }
        void finish() override
        {
            for (int i = 0; i < Slots; i++)
                run({"drop", std::to_string(i)});
        }
    };

    // an error of another type, which owns something
    struct Wrapped
    {
        E e;
        Wrapped(E const& e) : e(e) {}
        Wrapped(E&& e) : e(coil::move(e)) {}
        operator E() const { return e; }
    };

    struct Expecteds : Container
    {
        using X = coil::Expected<T, E>;
        std::unique_ptr<X> v[Slots];

        static Bytes dump(X& x)
        {
            X const& c = x;
            bool has = c.hasValue();
            Bytes vals;
            if (has)
                vals = nums({c.value().get(), x.value().get(), (*c).get(), (*x).get(), c->get(), x->get()});
            else
                vals = nums({c.error().get(), x.error().get()});
            return "{\"has\":" + ways({has, static_cast<bool>(c), x ? true : false}) + ",\"v\":" + vals + "}";
        }
        void done() override
        {
            Bytes o = "[";
            for (int i = 0; i < Slots; i++)
                o += Bytes(i ? "," : "") + "[" + (v[i] ? dump(*v[i]) : "") + "]";
            field("all", o + "]");
            end();
        }
        void run(Op const& op) override
        {
            Bytes const& e = op[0];
            int a = num(op, 1) & 3, b = num(op, 2);
            X* x = v[a].get();
            X* y = v[b & 3].get();
            Bytes how = op.size() > 3 ? op[3] : "";
            auto slots = [&] {
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>((b & 3) + 1));
            };
            auto one = [&](char const* n = nullptr) {
                begin(op);
                field("s", static_cast<long>(a + 1));
                if (n)
                    field(n, static_cast<long>(b));
            };
            if (e == "val" && !x)
                v[a] = std::make_unique<X>(T{b}), one("v");
            else if (e == "err" && !x)
            {
                bool kept = true; // a source which is not moved keeps its error
                if (how == "lwrap")
                {
                    coil::Unexpected<E> u{E{b}};
                    coil::Unexpected<Wrapped> w = u;
                    v[a] = std::make_unique<X>(w);
                    kept = u.value() == b && w.value().e == b && coil::move(u).value() == b;
                }
                else if (how == "cwrap")
                {
                    coil::Unexpected<E> const u{E{b}};
                    coil::Unexpected<Wrapped> const w = u;
                    v[a] = std::make_unique<X>(w);
                    kept = u.value() == b && w.value().e == b;
                }
                else if (how == "rwrap")
                {
                    coil::Unexpected<E> u{E{b}};
                    coil::Unexpected<Wrapped> w = coil::move(u);
                    kept = w.value().e == b;
                    v[a] = std::make_unique<X>(coil::move(w));
                }
                else if (how == "conv") // an error of another type
                    v[a] = std::make_unique<X>(coil::makeUnexpected(b));
                else if (how == "lval")
                {
                    coil::Unexpected<E> u{E{b}};
                    v[a] = std::make_unique<X>(u);
                    kept = u.value() == b;
                }
                else if (how == "cconv")
                {
                    coil::Unexpected<int> const u{b};
                    coil::Unexpected<E> w = u;
                    v[a] = std::make_unique<X>(static_cast<coil::Unexpected<E> const&>(w));
                    kept = u.value() == b && w.value() == b;
                }
                else if (how == "lconv")
                {
                    coil::Unexpected<int> u{b};
                    u.value() = b + 1;
                    coil::Unexpected<E> w = u;
                    w.value() = E{coil::move(u).value() - 1};
                    v[a] = std::make_unique<X>(coil::move(w));
                }
                else
                    v[a] = std::make_unique<X>(coil::makeUnexpected(E{b}));
                one("v");
                field("kept", kept);
            }
            else if (e == "cctor" && !x && y)
                v[a] = std::make_unique<X>(static_cast<X const&>(*y)), slots();
            else if (e == "mctor" && !x && y)
                v[a] = std::make_unique<X>(coil::move(*y)), slots();
            else if ((e == "cas" || e == "across") && x && y)
            {
                // a copy that fails here destroys the assigned object twice: see known-findings.txt, and 'across' for the demonstration
                if (e == "cas" && x->hasValue() != y->hasValue())
                    fuse.off();
                X& r = *x = static_cast<X const&>(*y);
                slots();
                field("self", &r == x);
            }
            else if (e == "mas" && x && y)
            {
                X& r = *x = coil::move(*y);
                slots();
                field("self", &r == x);
            }
            else if (e == "setv" && x)
                *x = T{b}, one("v");
            else if (e == "sete" && x)
            {
                bool kept = true;
                if (how == "conv")
                    *x = coil::makeUnexpected(b);
                else if (how == "lval")
                {
                    coil::Unexpected<E> u{E{b}};
                    *x = u;
                    kept = u.value() == b;
                }
                else if (how == "lwrap")
                {
                    coil::Unexpected<Wrapped> u{Wrapped{E{b}}};
                    *x = u;
                    kept = u.value().e == b;
                }
                else
                    *x = coil::makeUnexpected(E{b});
                one("v");
                field("kept", kept);
            }
            else if (e == "put" && x)
            {
                bool has = x->hasValue();
                if (!has)
                    x->error() = E{b};
                else if (how == "star")
                    **x = T{b};
                else if (how == "arrow")
                    *x->operator->() = T{b};
                else
                    x->value() = T{b};
                one("v");
            }
            else if (e == "take" && x) // moves the contents out
            {
                int got;
                if (x->hasValue())
                {
                    T t = how == "star" ? *coil::move(*x) : coil::move(*x).value();
                    got = t.get();
                }
                else
                {
                    E t = coil::move(*x).error();
                    got = t.get();
                }
                begin(op);
                field("s", static_cast<long>(a + 1));
                field("got", static_cast<long>(got));
            }
            else if (e == "eq" && x && y)
            {
                slots();
                X const &l = *x, &r = *y;
                field("eq", ways({l.operator==(r), r.operator==(l)}));
            }
            else if (e == "eqv" && x)
            {
                Bytes w;
                {
                    X const& l = *x;
                    T t{b};
                    w = ways({l.operator==(t), l.operator==(b)});
                }
                one("v");
                field("eq", w);
            }
            else if (e == "eqe" && x)
            {
                Bytes w;
                {
                    X const& l = *x;
                    coil::Unexpected<E> u{E{b}};
                    coil::Unexpected<int> n{b};
                    w = ways({l.operator==(u), l.operator==(n)});
                }
                one("v");
                field("eq", w);
            }
            else if (e == "drop" && x)
                v[a].reset(), one();
            else
                return;
            done();
        }
        void finish() override
        {
            for (int i = 0; i < Slots; i++)
                run({"drop", std::to_string(i)});
        }
    };

    static AddMaker a1{"opt", [] { return static_cast<Container*>(new Optionals); }};
    static AddMaker a2{"exp", [] { return static_cast<Container*>(new Expecteds); }};
}
