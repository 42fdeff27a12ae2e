// coil::Vector
#include "cont_core.h"

namespace ct
{
    template<typename T>
    struct Value;
    template<>
    struct Value<Elem<0>>
    {
        static Elem<0> make(int v) { return Elem<0>{v}; }
        static int get(Elem<0> const& e) { return e.get(); }
    };
    // has no moves of its own
    struct CopyOnly
    {
        Elem<0> e;
        CopyOnly() {}
        CopyOnly(int v) : e(v) {}
        CopyOnly(CopyOnly const& rhs) : e(rhs.e) {}
        CopyOnly& operator=(CopyOnly const& rhs)
        {
            e = rhs.e;
            return *this;
        }
        bool operator!=(CopyOnly const& rhs) const { return e != rhs.e; }
    };
    template<>
    struct Value<CopyOnly>
    {
        static CopyOnly make(int v) { return CopyOnly{v}; }
        static int get(CopyOnly const& c) { return c.e.get(); }
    };
    template<>
    struct Value<int>
    {
        static int make(int v) { return v; }
        static int get(int v) { return v; }
    };
    template<>
    struct Value<char>
    {
        static char make(int v) { return static_cast<char>(v); }
        static int get(char v) { return v; }
    };
    template<>
    struct Value<coil::String>
    {
        static coil::String make(int v)
        {
            coil::String s;
            if (v)
                s = coil::String{("value " + std::to_string(v)).c_str()};
            return s;
        }
        static int get(coil::String const& s)
        {
            Bytes b{s.data(), s.length()};
            return b.empty() ? 0 : b.compare(0, 6, "value ") == 0 ? atoi(b.c_str() + 6) : -99;
        }
    };
    template<>
    struct Value<coil::Vector<int>>
    {
        static coil::Vector<int> make(int v)
        {
            coil::Vector<int> r;
            for (int i = 0; i < v; i++)
                r.pushBack(v);
            return r;
        }
        static int get(coil::Vector<int> const& s)
        {
            for (size_t i = 0; i < s.size(); i++)
                if (s[i] != static_cast<int>(s.size()))
                    return -99;
            return static_cast<int>(s.size());
        }
    };

    template<typename T>
    struct Vectors : Container
    {
        using V = coil::Vector<T>;
        std::unique_ptr<V> v[Slots];

        static Bytes dump(V& x)
        {
            V const& c = x;
            Ways ways;
            std::vector<int> a;
            for (size_t i = 0; i < c.size(); i++)
                a.push_back(Value<T>::get(c[i]));
            ways.add(list(a));
            a.clear();
            for (size_t i = 0; i < x.size(); i++)
                a.push_back(Value<T>::get(x[i]));
            ways.add(list(a));
            a.clear();
            for (T const& e : c)
                a.push_back(Value<T>::get(e));
            ways.add(list(a));
            a.clear();
            for (T& e : x)
                a.push_back(Value<T>::get(e));
            ways.add(list(a));
            a.clear();
            for (size_t i = 0; i < c.size(); i++)
                a.push_back(Value<T>::get(c.data()[i]));
            ways.add(list(a));
            if (c.size())
            {
                a[0] = Value<T>::get(x.front());
                a[a.size() - 1] = Value<T>::get(x.back());
                ways.add(list(a));
                a[0] = Value<T>::get(c.front());
                a[a.size() - 1] = Value<T>::get(c.back());
                ways.add(list(a));
                a[0] = Value<T>::get(*x.data());
                ways.add(list(a));
            }
            return "{\"ways\":" + ways.json() + ",\"size\":" + std::to_string(c.size()) + ",\"empty\":" + (c.empty() ? "true" : "false") + ",\"cap\":" + std::to_string(c.capacity()) + "}";
        }
        void done() override
        {
            Bytes o = "[";
            for (int i = 0; i < Slots; i++)
                o += Bytes(i ? "," : "") + "[" + (v[i] ? dump(*v[i]) : "") + "]";
            field("all", o + "]");
            end();
        }
        void run(Op const& op) override
        {
            Bytes const& e = op[0];
            int a = num(op, 1) & 3, b = num(op, 2);
            V* x = v[a].get();
            V* y = v[b & 3].get();
            auto slots = [&] {
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>((b & 3) + 1));
            };
            auto one = [&](char const* n) {
                begin(op);
                field("s", static_cast<long>(a + 1));
                if (n)
                    field(n, static_cast<long>(b));
            };
            if (e == "make" && !x)
            {
                v[a] = std::make_unique<V>(static_cast<size_t>(b));
                one("n");
            }
            else if (e == "from" && !x)
            {
                std::vector<int> vals;
                std::vector<std::unique_ptr<T>> keep;
                if (op.size() > 2 && op[2] != "-")
                    for (auto& s : split(op[2], ','))
                        vals.push_back(atoi(s.c_str()));
                {
                    V tmp(vals.size());
                    for (int i : vals)
                        tmp.pushBack(Value<T>::make(i));
                    v[a] = std::make_unique<V>(static_cast<T const*>(tmp.begin()), static_cast<T const*>(tmp.end()));
                }
                one(nullptr);
                field("vs", list(vals));
            }
            else if (e == "cctor" && !x && y)
                v[a] = std::make_unique<V>(static_cast<V const&>(*y)), slots();
            else if (e == "mctor" && !x && y)
                v[a] = std::make_unique<V>(coil::move(*y)), slots();
            else if (e == "cas" && x && y)
            {
                V& r = *x = static_cast<V const&>(*y);
                slots();
                field("self", &r == x);
            }
            else if (e == "mas" && x && y)
            {
                V& r = *x = coil::move(*y);
                slots();
                field("self", &r == x);
            }
            else if (e == "push" && x)
                x->pushBack(Value<T>::make(b)), one("v");
            else if (e == "pushown" && x && b < static_cast<int>(x->size()))
                x->pushBack((*x)[static_cast<size_t>(b)]), one("i");
            else if (e == "pop" && x && x->size())
                x->popBack(), one(nullptr);
            else if (e == "resize" && x)
                x->resize(static_cast<size_t>(b)), one("n");
            else if (e == "reserve" && x)
                x->reserve(static_cast<size_t>(b)), one("n");
            else if (e == "clear" && x)
                x->clear(), one(nullptr);
            else if (e == "put" && x && op.size() == 5 && b < static_cast<int>(x->size()))
            {
                {
                    T val = Value<T>::make(num(op, 3));
                    if (op[4] == "it")
                        *(x->begin() + b) = val;
                    else if (op[4] == "data")
                        x->data()[b] = val;
                    else if (op[4] == "front" && b == 0)
                        x->front() = val;
                    else if (op[4] == "back" && b + 1 == static_cast<int>(x->size()))
                        x->back() = val;
                    else
                        (*x)[static_cast<size_t>(b)] = val;
                }
                begin(op);
                field("s", static_cast<long>(a + 1));
                field("i", static_cast<long>(b));
                field("v", static_cast<long>(num(op, 3)));
            }
            else if (e == "eq" && x && y)
            {
                slots();
                if constexpr (!std::is_same_v<T, coil::String>)
                    field("eq", static_cast<V const&>(*x) == static_cast<V const&>(*y));
            }
            else if (e == "drop" && x)
                v[a].reset(), one(nullptr);
            else
                return;
            done();
        }
        void finish() override
        {
            for (int i = 0; i < Slots; i++)
                run({"drop", std::to_string(i)});
        }
    };

    static AddMaker a1{"vec.elem", [] { return static_cast<Container*>(new Vectors<Elem<0>>); }};
    static AddMaker a5{"vec.copy", [] { return static_cast<Container*>(new Vectors<CopyOnly>); }};
    static AddMaker a2{"vec.int", [] { return static_cast<Container*>(new Vectors<int>); }};
    static AddMaker a3{"vec.char", [] { return static_cast<Container*>(new Vectors<char>); }};
    static AddMaker a4{"vec.string", [] { return static_cast<Container*>(new Vectors<coil::String>); }};
}
