// coil::UnorderedMap
#include "cont_core.h"

namespace ct
{
    static int g_hash = 0;
    constexpr int MaxKeys = 400;

    static size_t hashOf(int k)
    {
        switch (g_hash)
        {
        case 0: return 0;                                                  // all collide
        case 1: return static_cast<size_t>(k % 2);
        case 2: return static_cast<size_t>(k);
        case 3: return static_cast<size_t>(-1) - static_cast<size_t>(k % 3); // huge
        case 4: return static_cast<size_t>(k) * 4;
        case 5: return static_cast<size_t>(k / 3);
        default: return static_cast<size_t>(k) * 0x9E3779B97F4A7C15ull;
        }
    }

    // a key, and another type it can be looked up by
    struct Key
    {
        Elem<0> e;
        Key(int v) : e(v) {}
        bool operator==(Key const& rhs) const { return e == rhs.e; }
    };
    struct Probe
    {
        int v;
    };
    inline bool operator==(Key const& k, Probe const& p) { return k.e.get() == p.v; }
}

template<>
struct coil::Hash<ct::Key>
{
    size_t operator()(ct::Key const& k) { return ct::hashOf(k.e.get()); }
};
template<>
struct coil::Hash<ct::Probe>
{
    size_t operator()(ct::Probe const& k) { return ct::hashOf(k.v); }
};
template<>
struct coil::Hash<int>
{
    size_t operator()(int const& k) { return ct::hashOf(k); }
};

namespace ct
{
    template<typename K>
    struct KeyOf;
    template<>
    struct KeyOf<Key>
    {
        static Key make(int k) { return Key{k}; }
        static int get(Key const& k) { return k.e.get(); }
        using Other = Probe;
        static Probe other(int k) { return Probe{k}; }
    };
    template<>
    struct KeyOf<int>
    {
        static int make(int k) { return k; }
        static int get(int k) { return k; }
        static int other(int k) { return k; }
    };
    // words, of which some have the same djb2 hash
    template<>
    struct KeyOf<coil::String>
    {
        static coil::StringView word(int k)
        {
            static std::vector<Bytes> const words = [] {
                std::vector<Bytes> w{"", "ab", "bA", "abab", "abbA", "bAab", "bAbA", "x", "y", "abc", "longer than any small buffer would hold, by far",
                                     Bytes("k\0ab", 4), Bytes("k\0bA", 4), Bytes("k\0", 2), Bytes("\0", 1), Bytes("ab\0", 3)};
                for (int i = static_cast<int>(w.size()); i < MaxKeys; i++)
                    w.push_back("k" + std::to_string(i));
                return w;
            }();
            Bytes const& w = words.at(static_cast<size_t>(k));
            return {w.data(), w.size()};
        }
        static coil::String make(int k) { return coil::String{word(k)}; }
        static int get(coil::String const& s)
        {
            for (int i = 0; i < MaxKeys; i++)
                if (s == word(i))
                    return i;
            return -99;
        }
        static coil::StringView other(int k) { return word(k); }
    };

    static int g_keys = 16; // how many keys are looked up

    template<typename K>
    struct Maps : Container
    {
        using M = coil::UnorderedMap<K, Elem<1>>;
        std::unique_ptr<M> v[Slots];

        static Bytes entry(int k, int val) { return "[" + std::to_string(k) + "," + std::to_string(val) + "]"; }

        static Bytes dump(M& x)
        {
            M const& c = x;
            Ways all;
            Bytes o;
            for (auto const& p : c)
                o += (o.empty() ? "" : ",") + entry(KeyOf<K>::get(p.key()), p.value().get());
            all.add("[" + o + "]");
            o.clear();
            for (auto& p : x)
                o += (o.empty() ? "" : ",") + entry(KeyOf<K>::get(p.key()), p.value().get());
            all.add("[" + o + "]");
            o.clear();
            for (auto it = c.begin(); it != c.end() && !(it == c.end()); ++it)
                o += (o.empty() ? "" : ",") + entry(KeyOf<K>::get(it->key()), it->value().get());
            all.add("[" + o + "]");
            // what lookups of every key find
            Ways found;
            for (int way = 0; way < 4; way++)
            {
                o.clear();
                for (int k = 0; k < g_keys; k++)
                {
                    K key = KeyOf<K>::make(k);
                    auto other = KeyOf<K>::other(k);
                    auto add = [&](auto it, auto e) {
                        if (it == e || !(it != e))
                            return;
                        o += (o.empty() ? "" : ",") + entry(k, KeyOf<K>::get(it->key()) == k ? it->value().get() : -99);
                    };
                    if (way == 0)
                        add(c.find(key), c.end());
                    else if (way == 1)
                        add(x.find(key), x.end());
                    else if (way == 2)
                        add(c.find(other), c.end());
                    else
                        add(x.find(other), x.end());
                }
                found.add("[" + o + "]");
            }
            return "{\"all\":" + all.json() + ",\"found\":" + found.json() + ",\"size\":" + std::to_string(c.size()) + "}";
        }
        void done() override
        {
            Bytes o = "[";
            for (int i = 0; i < Slots; i++)
                o += Bytes(i ? "," : "") + "[" + (v[i] ? dump(*v[i]) : "") + "]";
            field("all", o + "]");
            end();
        }
        void run(Op const& op) override
        {
            Bytes const& e = op[0];
            int a = num(op, 1) & 3, b = num(op, 2);
            M* x = v[a].get();
            M* y = v[b & 3].get();
            auto slots = [&] {
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>((b & 3) + 1));
            };
            auto one = [&](char const* n = nullptr) {
                begin(op);
                field("s", static_cast<long>(a + 1));
                if (n)
                    field(n, static_cast<long>(b));
            };
            bool keyed = b >= 0 && b < g_keys;
            if (e == "hash")
            {
                for (auto& p : v)
                    if (p)
                        return;
                g_hash = num(op, 1);
                return;
            }
            if (e == "keys")
            {
                for (auto& p : v)
                    if (p)
                        return;
                g_keys = num(op, 1) > MaxKeys ? MaxKeys : num(op, 1);
                return;
            }
            if (e == "make" && !x)
            {
                if (op.size() > 3)
                    v[a] = std::make_unique<M>(static_cast<size_t>(b), static_cast<float>(num(op, 3)) / 100.0f);
                else if (op.size() > 2)
                    v[a] = std::make_unique<M>(static_cast<size_t>(b));
                else
                    v[a] = std::make_unique<M>();
                one();
            }
            else if (e == "ins" && x && keyed)
            {
                Bytes ret;
                {
                    auto it = x->insertOrAssign(KeyOf<K>::make(b), Elem<1>{num(op, 3)});
                    fuse.off();
                    ret = it != x->end() ? entry(KeyOf<K>::get(it->key()), it->value().get()) : "[]";
                }
                one("k");
                field("v", static_cast<long>(num(op, 3)));
                field("ret", ret);
            }
            else if (e == "erase" && x && keyed)
            {
                if (op.size() > 3 && op[3] == "other")
                    x->erase(KeyOf<K>::other(b));
                else
                    x->erase(KeyOf<K>::make(b));
                one("k");
            }
            else if (e == "eraseown" && x && keyed) // by the key inside the map
            {
                auto it = x->find(KeyOf<K>::make(b));
                if (it == x->end())
                    return;
                begin({"erase"});
                x->erase(it->key());
                field("s", static_cast<long>(a + 1));
                field("k", static_cast<long>(b));
            }
            else if (e == "insown" && x && keyed) // an entry of the map, given its own key and value again
            {
                auto it = x->find(KeyOf<K>::make(b));
                if (it == x->end())
                    return;
                int val = it->value().get();
                x->insertOrAssign(it->key(), it->value());
                one("k");
                field("v", static_cast<long>(val));
            }
            else if (e == "clear" && x)
                x->clear(), one();
            else if (e == "mut" && x && keyed && op.size() == 5)
            {
                bool done = false;
                if (op[4] == "it")
                {
                    for (auto& p : *x)
                        if (KeyOf<K>::get(p.key()) == b)
                            p.value() = Elem<1>{num(op, 3)}, done = true;
                }
                else
                {
                    auto it = x->find(KeyOf<K>::other(b));
                    if (it != x->end())
                        (*it).value() = Elem<1>{num(op, 3)}, done = true;
                }
                one("k");
                field("v", static_cast<long>(num(op, 3)));
                field("done", done);
            }
            else if (e == "cctor" && !x && y)
                v[a] = std::make_unique<M>(static_cast<M const&>(*y)), slots();
            else if (e == "mctor" && !x && y)
                v[a] = std::make_unique<M>(coil::move(*y)), slots();
            else if (e == "cas" && x && y)
                *x = static_cast<M const&>(*y), slots();
            else if (e == "mas" && x && y)
                *x = coil::move(*y), slots();
            else if (e == "drop" && x)
                v[a].reset(), one();
            else
                return;
            done();
        }
        void finish() override
        {
            for (int i = 0; i < Slots; i++)
                run({"drop", std::to_string(i)});
        }
    };

    static AddMaker a1{"map.key", [] { g_keys = 16; g_hash = 0; return static_cast<Container*>(new Maps<Key>); }};
    static AddMaker a2{"map.int", [] { g_keys = 16; g_hash = 0; return static_cast<Container*>(new Maps<int>); }};
    static AddMaker a3{"map.string", [] { g_keys = 16; g_hash = 0; return static_cast<Container*>(new Maps<coil::String>); }};
}
