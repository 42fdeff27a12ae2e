// big_driver CONFIGS PROGRAMS OUT: very large texts, lists, containers and registries (spec/CoilBig.tla).
// One program per line; texts in hex; what is observed is written in runs [element, count].
//   lex CONFIG PRE UNIT N SUF
//   conv TYPE MANY PRE UNIT N SUF ROFF RPER EOFF EPER      (MANY 1: PRE and SUF are lists of texts, '_' for none)
//   vec|str OP...   map SIZE OP...   reg SIZE NAMES OP...  (OP  name:d:s:x:lo:n)
//   cmd KIND N ...
#include "big_core.h"

#include "coil/detail/DefaultLexer.h"

#include <fcntl.h>
#include <iomanip>
#include <sstream>
#include <stdexcept>

using namespace vh;
using namespace big;

struct Cfg
{
    Bytes g, q, s, w;
};
static std::vector<Cfg> cfgs;

static coil::StringView view(Bytes const& b)
{
    return {b.data(), b.size()};
}

// command texts -------------------------------------------------------------------------------------------------
static Bytes runsOf(coil::Vector<coil::Value> const& args)
{
    Runs r;
    for (auto& a : args)
        r.add(runsOf(a));
    return r.text();
}
static Bytes runsOf(coil::NamedValue const* b, coil::NamedValue const* e)
{
    Runs r;
    for (; b != e; ++b)
        r.add("{\"k\":" + runs(b->key) + ",\"v\":" + runsOf(b->value) + "}");
    return r.text();
}
static Bytes inputOf(coil::ExecutionInput const& in)
{
    return "\"n\":" + runs(in.name) + ",\"a\":" + runsOf(in.arguments) + ",\"k\":" + runsOf(in.namedArguments.begin(), in.namedArguments.end());
}
static Bytes errorsOf(coil::ExecutionResult const& r)
{
    Runs e;
    for (auto& x : r.errors)
        e.add(runs(x));
    return e.text();
}

static Bytes g_calls;
static void called(coil::Context& ctx, std::initializer_list<coil::Value const*> args)
{
    Runs r;
    for (auto a : args)
        r.add(runsOf(*a));
    auto named = ctx.namedArgs();
    g_calls += (g_calls.empty() ? "{\"a\":" : ",{\"a\":") + r.text() + ",\"k\":" + runsOf(named.begin(), named.end()) + "}";
}
using V = coil::Value;
static coil::Vector<coil::AnyFunctor> catchAll()
{
    return coil::overloaded(
        [](coil::Context c) { called(c, {}); },
        [](coil::Context c, V const& a) { called(c, {&a}); },
        [](coil::Context c, V const& a, V const& b) { called(c, {&a, &b}); },
        [](coil::Context c, V const& a, V const& b, V const& d) { called(c, {&a, &b, &d}); },
        [](coil::Context c, V const& a, V const& b, V const& d, V const& e) { called(c, {&a, &b, &d, &e}); });
}

static void lexProgram(Bytes& o, Op const& f)
{
    size_t c = static_cast<size_t>(atoi(f.at(1).c_str()));
    size_t n = static_cast<size_t>(atol(f.at(4).c_str()));
    Bytes pre = unhex(f.at(2)), unit = unhex(f.at(3)), suf = unhex(f.at(5));
    o += ",\"c\":" + f.at(1) + ",\"pre\":" + bytes(pre) + ",\"unit\":" + bytes(unit) + ",\"n\":" + f.at(4) + ",\"suf\":" + bytes(suf);
    Cfg const& cfg = cfgs.at(c - 1);
    Bytes text = pre;
    for (size_t i = 0; i < n; i++)
        text += unit;
    text += suf;
    Exact exact{text};
    coil::StringView sv{exact.get(), text.size()};

    coil::DefaultLexer lexer{view(cfg.g), view(cfg.q), view(cfg.s), view(cfg.w)};
    coil::Bindings b;
    if (c != 1)
        b.setLexer(coil::makeUnique<coil::DefaultLexer>(view(cfg.g), view(cfg.q), view(cfg.s), view(cfg.w)));
    auto parsed = lexer.parse(sv);
    o += ",\"p\":{";
    if (parsed)
    {
        o += "\"ok\":true," + inputOf(*parsed);
        if (!parsed->name.empty())
            b[parsed->name] = catchAll();
    }
    else
        o += "\"ok\":false,\"msg\":" + runs(parsed.error());
    g_calls.clear();
    coil::ExecutionResult r = b.execute(sv);
    o += "},\"x\":{" + inputOf(r.input) + ",\"e\":" + errorsOf(r) + ",\"r\":[" + (r.returnValue ? runs(*r.returnValue) : "") + "],\"o\":" + runs(r.output) + ",\"c\":[" + g_calls + "]}";
}

// containers ----------------------------------------------------------------------------------------------------
struct BigOp
{
    Bytes name;
    size_t d, s;
    long x;
    size_t lo, n;
};
static std::vector<BigOp> opsOf(Bytes& o, Op const& f, size_t from)
{
    std::vector<BigOp> ops;
    o += ",\"ops\":[";
    for (size_t i = from; i < f.size(); i++)
    {
        auto p = split(f[i], ':');
        auto num = [&](size_t k) { return static_cast<size_t>(atol(p.at(k).c_str())); };
        ops.push_back({p.at(0), num(1) - 1, num(2) - 1, atol(p.at(3).c_str()), num(4), num(5)});
        o += (i > from ? ",{\"o\":\"" : "{\"o\":\"") + p[0] + "\",\"d\":" + p[1] + ",\"s\":" + p[2] + ",\"x\":" + p[3] + ",\"lo\":" + p[4] + ",\"n\":" + p[5] + "}";
    }
    o += "]";
    return ops;
}

struct Num
{
    int v = 0;
    bool operator==(Num const& r) const { return v == r.v; }
    bool operator!=(Num const& r) const { return v != r.v; }
};

static void vecProgram(Bytes& o, Op const& f)
{
    auto ops = opsOf(o, f, 1);
    coil::Vector<Num> v[2];
    o += ",\"obs\":[";
    bool first = true;
    for (auto& p : ops)
    {
        auto &d = v[p.d], &s = v[p.s];
        Num x{static_cast<int>(p.x)};
        if (p.name == "push")
            for (size_t i = 0; i < p.n; i++)
                d.pushBack(x);
        else if (p.name == "adds")
        {
            size_t n = s.size();
            for (size_t i = 0; i < n; i++)
                d.pushBack(s[i]);
        }
        else if (p.name == "pop")
            for (size_t i = 0; i < p.n; i++)
                d.popBack();
        else if (p.name == "resize")
            d.resize(p.n);
        else if (p.name == "reserve")
            d.reserve(p.n);
        else if (p.name == "clear")
            d.clear();
        else if (p.name == "copy")
            d = s;
        else if (p.name == "move")
        {
            d = coil::move(s);
            s.clear();
        }
        else if (p.name == "part")
            d = coil::Vector<Num>{s.data() + p.lo, s.data() + p.lo + p.n};
        else
            abort();
        Bytes vs, ns, cs;
        for (auto& w : v)
        {
            Runs r;
            size_t i = 0;
            for (Num const& e : w)
                r.add(std::to_string(w[i++].v == e.v ? e.v : -7));
            vs += (vs.empty() ? "" : ",") + r.text();
            ns += (ns.empty() ? "" : ",") + std::to_string(w.size());
            cs += (cs.empty() ? "" : ",") + std::to_string(w.capacity());
        }
        o += (first ? "{\"v\":[" : ",{\"v\":[") + vs + "],\"n\":[" + ns + "],\"cap\":[" + cs + "],\"eq\":" + flag(v[0] == v[1]) + "}";
        first = false;
    }
    o += "]";
}

static void strProgram(Bytes& o, Op const& f)
{
    auto ops = opsOf(o, f, 1);
    coil::String v[2];
    o += ",\"obs\":[";
    bool first = true;
    for (auto& p : ops)
    {
        auto &d = v[p.d], &s = v[p.s];
        char x = static_cast<char>(p.x);
        if (p.name == "push")
            for (size_t i = 0; i < p.n; i++)
                d += x;
        else if (p.name == "addt")
        {
            Exact t{Bytes(p.n, x)};
            d += coil::StringView{t.get(), p.n};
        }
        else if (p.name == "addz")
            d += Bytes(p.n, x).c_str();
        else if (p.name == "adds")
            d += s;
        else if (p.name == "addp")
            d += coil::StringView{s}.substr(p.lo, p.n);
        else if (p.name == "plus")
            d = s + d;
        else if (p.name == "pop")
            d.resize(d.length() - p.n);
        else if (p.name == "resize")
        {
            size_t old = d.length();
            d.resize(p.n);
            if (p.n > old)
                memset(d.data() + old, x, p.n - old); // (not specified by the library)
        }
        else if (p.name == "reserve")
            d.reserve(p.n);
        else if (p.name == "clear")
            d = coil::String{};
        else if (p.name == "copy")
            d = s;
        else if (p.name == "move")
        {
            d = coil::move(s);
            s = coil::String{};
        }
        else if (p.name == "part")
            d = coil::String{coil::StringView{s}.substr(p.lo, p.n)};
        else
            abort();
        Bytes vs, ws, ns, ls, zs;
        for (auto& w : v)
        {
            coil::StringView vw = w;
            auto sep = vs.empty() ? "" : ",";
            vs += sep + runs(Bytes(w.data(), w.length()));
            Runs r;
            for (size_t i = 0; i < vw.length(); i++)
                r.add(std::to_string(static_cast<unsigned char>(vw[i])));
            ws += sep + r.text();
            ns += sep + std::to_string(static_cast<size_t>(w.end() - w.begin()));
            ls += sep + std::to_string(w.slength() == vw.slength() ? w.slength() : -1);
            zs += sep + std::to_string(strlen(w.cStr()));
        }
        bool eq = v[0] == v[1] && coil::StringView{v[0]} == v[1] && !(coil::StringView{v[0]} != v[1]);
        bool neq = !(v[0] == v[1]) && !(coil::StringView{v[0]} == v[1]) && coil::StringView{v[0]} != v[1];
        bool hq = coil::Hash<coil::String>{}(v[0]) == coil::Hash<coil::StringView>{}(v[1]);
        o += (first ? "{\"v\":[" : ",{\"v\":[") + vs + "],\"vw\":[" + ws + "],\"n\":[" + ns + "],\"sl\":[" + ls + "],\"z\":[" + zs + "],\"eq\":" + (eq ? "true" : neq ? "false" : "\"both\"") + ",\"hq\":" + flag(hq) + "}";
        first = false;
    }
    o += "]";
}

struct Key
{
    size_t i;
    bool operator==(Key const& r) const { return i == r.i; }
};
namespace coil
{
    template<>
    struct Hash<Key>
    {
        size_t operator()(Key const& k) const { return k.i * 3; }
    };
}

static void mapProgram(Bytes& o, Op const& f)
{
    size_t size = static_cast<size_t>(atol(f.at(1).c_str()));
    o += ",\"size\":" + f.at(1);
    auto ops = opsOf(o, f, 2);
    coil::UnorderedMap<Key, long> v[2];
    o += ",\"obs\":[";
    bool first = true;
    for (auto& p : ops)
    {
        auto &d = v[p.d], &s = v[p.s];
        if (p.name == "set")
            for (size_t i = p.lo; i < p.lo + p.n; i++)
                d.insertOrAssign(Key{i}, p.x);
        else if (p.name == "erase")
            for (size_t i = p.lo; i < p.lo + p.n; i++)
                d.erase(Key{i});
        else if (p.name == "clear")
            d.clear();
        else if (p.name == "copy")
            d = s;
        else if (p.name == "move")
        {
            d = coil::move(s);
            s.clear();
        }
        else
            abort();
        Bytes vs, is, ns;
        for (auto& w : v)
        {
            auto sep = vs.empty() ? "" : ",";
            Runs r;
            for (size_t i = 0; i < size; i++)
            {
                auto it = w.find(Key{i});
                r.add(std::to_string(it == w.end() ? 0 : it->key().i == i ? it->value() : -1));
            }
            vs += sep + r.text();
            std::vector<long> seen(size, 0);
            for (auto& kv : w)
                seen.at(kv.key().i) = seen.at(kv.key().i) == 0 ? kv.value() : -2;
            Runs q;
            for (long x : seen)
                q.add(std::to_string(x));
            is += sep + q.text();
            ns += sep + std::to_string(w.size());
        }
        o += (first ? "{\"v\":[" : ",{\"v\":[") + vs + "],\"it\":[" + is + "],\"n\":[" + ns + "]}";
        first = false;
    }
    o += "]";
}

static void regProgram(Bytes& o, Op const& f)
{
    size_t size = static_cast<size_t>(atol(f.at(1).c_str()));
    bool longNames = f.at(2) == "long";
    o += ",\"size\":" + f.at(1);
    auto name = [&](size_t i) { return longNames ? Bytes(1 + i * 32768, 'x') : "n" + std::to_string(i); };
    auto ops = opsOf(o, f, 3);
    coil::Bindings v[2];
    o += ",\"obs\":[";
    bool first = true;
    for (auto& p : ops)
    {
        auto &d = v[p.d], &s = v[p.s];
        if (p.name == "set")
            for (size_t i = p.lo; i < p.lo + p.n; i++)
            {
                Exact t{name(i)}; // the registry keeps a name of its own
                d[coil::StringView{t.get(), t.size()}] = [x = p.x]() { return x; };
            }
        else if (p.name == "erase")
            for (size_t i = p.lo; i < p.lo + p.n; i++)
                d.remove(view(name(i)));
        else if (p.name == "clear")
            d.clear();
        else if (p.name == "move")
        {
            d = coil::move(s);
            s.clear();
        }
        else
            abort();
        Bytes hs, xs;
        for (auto& w : v)
        {
            auto sep = hs.empty() ? "" : ",";
            Runs have, ex;
            for (size_t i = 0; i < size; i++)
            {
                Bytes nm = name(i);
                have.add(w.get(view(nm)) ? "1" : "0");
                auto r = w.execute(view(nm));
                Bytes es, rs;
                for (auto& e : r.errors)
                {
                    Bytes t{e.cStr(), e.length()};
                    size_t at = t.find(nm);
                    if (at != Bytes::npos)
                        t.replace(at, nm.size(), "@");
                    es += (es.empty() ? "" : ",") + bytes(t);
                }
                if (r.returnValue)
                    rs = bytes(Bytes{r.returnValue->cStr(), r.returnValue->length()});
                ex.add("{\"e\":[" + es + "],\"r\":[" + rs + "]}");
            }
            hs += sep + have.text();
            xs += sep + ex.text();
        }
        o += (first ? "{\"have\":[" : ",{\"have\":[") + hs + "],\"ex\":[" + xs + "]}";
        first = false;
    }
    o += "]";
}

// commands ------------------------------------------------------------------------------------------------------
struct Owner
{
    inline static size_t born = 0, dead = 0, copies = 0;
    Owner() { born++; }
    Owner(Owner const&) { copies++; }
    Owner(Owner&& r) { r.mine = false; }
    ~Owner() { dead += mine; }
    void operator()() const {}
    bool mine = true;
};

static Bytes listText(coil::Value const& v)
{
    Bytes o;
    for (auto& s : v.subvalues)
        o += (o.empty() ? "" : ",") + bytes(Bytes{s.data(), s.length()});
    return "[" + o + "]";
}
static Bytes listText(coil::Optional<coil::String> const& v)
{
    return v ? "[" + bytes(Bytes{v->cStr(), v->length()}) + "]" : "[]";
}
static Bytes plainErrors(coil::ExecutionResult const& r)
{
    Runs e;
    for (auto& x : r.errors)
        e.add(bytes(Bytes{x.cStr(), x.length()}));
    return e.text();
}

static void cmdProgram(Bytes& o, Op const& f)
{
    Bytes const& w = f.at(1);
    size_t n = static_cast<size_t>(atol(f.at(2).c_str()));
    auto arg = [&](size_t i) { return unhex(f.at(i)); };
    o += ",\"w\":\"" + w + "\",\"n\":" + f.at(2);
    coil::Bindings b;
    if (w == "log")
    {
        Bytes u = arg(3);
        bool nl = f.at(4) == "1";
        b["f"] = [&](coil::Context c) {
            coil::String s{view(u)};
            for (size_t i = 0; i < n; i++)
                switch (i % 4)
                {
                case 0: case 1: nl ? c.logline(s) : c.log(s); break;
                case 2: nl ? c.loglinef("%s", u.c_str()) : c.logf("%s", u.c_str()); break;
                case 3: c.log(s); if (nl) c.log("\n"); break;
                }
            return 7;
        };
        auto r = b.execute("f");
        o += ",\"u\":" + bytes(u) + ",\"nl\":" + flag(nl) + ",\"out\":" + pieces(Bytes{r.output.cStr(), r.output.length()}, u.size() + nl) + ",\"errs\":" + errorsOf(r) + ",\"ret\":" + listText(r.returnValue);
    }
    else if (w == "err")
    {
        Bytes u = arg(3);
        b["f"] = [&](coil::Context c) {
            for (size_t i = 0; i < n; i++)
                i % 2 || i + 1 == n ? c.reportError(coil::String{view(u)}) : (i++, c.reportErrors(coil::String{view(u)}, coil::String{view(u)}));
            return 7;
        };
        auto r = b.execute("f");
        o += ",\"u\":" + bytes(u) + ",\"out\":" + runs(r.output) + ",\"errs\":" + plainErrors(r) + ",\"ret\":" + listText(r.returnValue);
    }
    else if (w == "long")
    {
        char x = arg(3)[0];
        bool bad = f.at(4) == "1";
        b["f"] = [&](coil::Context c) {
            coil::String s{view(Bytes(n, x))};
            c.log(s);
            c.logline(s);
            c.logf("%s", s.cStr());
            c.loglinef("%.*s", s.slength(), s.data());
            if (bad)
            {
                c.reportError(s);
                c.reportErrors(s, s);
            }
            return s;
        };
        auto r = b.execute("f");
        o += ",\"x\":" + std::to_string(static_cast<unsigned char>(x)) + ",\"bad\":" + flag(bad) + ",\"out\":" + runs(r.output) + ",\"errs\":" + errorsOf(r) + ",\"ret\":" + (r.returnValue ? "[" + runs(*r.returnValue) + "]" : Bytes{"[]"});
    }
    else if (w == "named")
    {
        Bytes key = arg(3), v = arg(4), key2 = arg(5), v2 = arg(6), key0 = arg(7);
        b["f"] = [&](coil::Context c) {
            coil::NamedArgs a = c.namedArgs();
            Runs it;
            for (coil::NamedValue const& x : a)
                it.add("{\"k\":" + bytes(Bytes{x.key.data(), x.key.length()}) + ",\"v\":" + listText(x.value) + "}");
            o += ",\"size\":" + std::to_string(a.size()) + ",\"it\":" + it.text();
            auto g1 = a.get(view(key));
            auto g2 = a.get(view(key2));
            auto g2s = a.get<coil::String>(view(key2));
            auto g0 = a.get(view(key0));
            o += ",\"g1\":" + (g1 ? listText(static_cast<coil::Value const&>(*g1)) : "[0]") + ",\"g2\":" + (g2 ? listText(static_cast<coil::Value const&>(*g2)) : "[0]");
            o += ",\"g2s\":" + (g2s ? "[" + bytes(Bytes{g2s->cStr(), g2s->length()}) + "]" : "[0]") + ",\"g0\":" + (g0 ? "[0]" : bytes(Bytes{g0.error().message.cStr(), g0.error().message.length()}));
        };
        o += ",\"key\":" + bytes(key) + ",\"v\":" + bytes(v) + ",\"key2\":" + bytes(key2) + ",\"v2\":" + bytes(v2) + ",\"key0\":" + bytes(key0);
        coil::ExecutionInput in;
        in.name = "f";
        for (size_t i = 0; i < n; i++)
            in.namedArguments.pushBack(coil::NamedValue{view(key), coil::Value{view(v)}});
        in.namedArguments.pushBack(coil::NamedValue{view(key2), coil::Value{view(v2)}});
        b.execute(coil::move(in));
    }
    else if (w == "over")
    {
        size_t offset = static_cast<size_t>(atol(f.at(3).c_str()));
        coil::Vector<coil::AnyFunctor> fs;
        for (size_t i = 1; i <= n; i++)
            fs.pushBack(coil::move(coil::overloaded([i](int) { return i; })[0]));
        fs.pushBack(coil::move(coil::overloaded([n](int, int) { return n + 1; })[0]));
        b["f"] = coil::move(fs);
        Runs ars;
        for (auto& x : b.get("f")->functors)
            ars.add(std::to_string(x.arity()));
        o += ",\"ars\":" + ars.text() + ",\"got1\":" + listText(b.execute("f 1").returnValue) + ",\"got2\":" + listText(b.execute("f 1 2").returnValue);
        auto r = b.execute("f");
        Bytes e = r.errors.size() == 1 ? Bytes{r.errors[0].cStr(), r.errors[0].length()} : "not one error";
        o += ",\"e0\":" + chunks(e, offset, 3);
    }
    else if (w == "exc")
    {
        char x = arg(3)[0];
        b["f"] = [&]() { throw std::runtime_error(Bytes(n, x)); };
        auto r = b.execute("f");
        o += ",\"x\":" + std::to_string(static_cast<unsigned char>(x)) + ",\"out\":" + runs(r.output) + ",\"errs\":" + errorsOf(r) + ",\"ret\":" + listText(r.returnValue);
    }
    else if (w == "name")
    {
        char x = arg(3)[0];
        Bytes name(n, x);
        {
            Exact t{name};
            b[coil::StringView{t.get(), n}] = []() { return 1; };
        }
        auto r = b.execute(view(name));
        coil::DefaultLexer lexer;
        auto p = lexer.parse(view(name));
        auto q = b.execute(coil::StringView{name.data(), n - 1});
        o += ",\"x\":" + std::to_string(static_cast<unsigned char>(x)) + ",\"nm\":" + (p ? runs(p->name) : "[]") + ",\"in\":" + runs(r.input.name) + ",\"ret\":" + listText(r.returnValue) + ",\"errs\":" + errorsOf(r) + ",\"un\":" + errorsOf(q);
    }
    else if (w == "var")
    {
        char x = arg(3)[0];
        coil::String var, held;
        b["v"] = coil::variable(&var);
        b["p"] = coil::property([&]() -> coil::String const& { return held; }, [&](coil::String const& s) { held = s; });
        Bytes t(n, x);
        o += ",\"x\":" + std::to_string(static_cast<unsigned char>(x)) + ",\"seen\":[";
        for (Bytes cmd : {"v " + t, Bytes{"v"}, "p " + t, Bytes{"p"}})
        {
            auto r = b.execute(view(cmd));
            o += (o.back() == '[' ? "{\"e\":" : ",{\"e\":") + errorsOf(r) + ",\"r\":[" + (r.returnValue ? runs(*r.returnValue) : "") + "]}";
        }
        o += "]";
    }
    else if (w == "calls")
    {
        size_t count = 0, clean = 0;
        b["f"] = [&](int k) { return count += static_cast<size_t>(k); };
        Bytes last;
        for (size_t i = 0; i < n; i++)
        {
            auto r = b.execute("f 1");
            clean += r.errors.empty() && r.output.empty() && r.returnValue && r.input.arguments.size() == 1;
            if (i + 1 == n)
                last = listText(r.returnValue);
        }
        o += ",\"clean\":" + std::to_string(clean) + ",\"last\":" + last;
    }
    else if (w == "own")
    {
        size_t h = n / 2 + 1;
        Owner::born = Owner::dead = Owner::copies = 0;
        o += ",\"h\":" + std::to_string(h) + ",\"life\":[";
        auto look = [&]() { o += (o.back() == '[' ? "[" : ",[") + std::to_string(Owner::born) + "," + std::to_string(Owner::dead) + "," + std::to_string(Owner::copies) + "]"; };
        auto all = [&](size_t m, auto g) {
            for (size_t i = 0; i < m; i++)
                g(coil::String{view("k" + std::to_string(i))});
        };
        all(n, [&](coil::String const& k) { b[k] = Owner{}; });
        look();
        all(n, [&](coil::String const& k) { b[k] = Owner{}; });
        look();
        all(h, [&](coil::String const& k) { b.remove(k); });
        look();
        b.clear();
        look();
        o += "]";
    }
    else if (w == "texts")
    {
        char x = arg(3)[0];
        Bytes t(n, x);
        Exact t1{t}, t2{t};
        coil::StringView v1{t1.get(), n}, v2{t2.get(), n};
        coil::StringView shorter{t1.get(), n - 1};
        coil::String s1{v1}, s2{t.c_str()}, s3{t.data(), n};
        coil::String s4 = s1;
        coil::String moved = coil::move(s4);
        coil::Value value{v1};
        coil::Value listed{coil::Vector<coil::StringView>(static_cast<size_t>(0))};
        for (size_t i = 0; i + 1 < n; i += 2)
            listed.subvalues.pushBack(v1.substr(i, 1));
        std::ostringstream plain;
        plain << v1;
        Bytes chosen(1, x);
        o += ",\"x\":" + std::to_string(static_cast<unsigned char>(x)) + ",\"same\":[" + runs(v1) + "," + runs(s1) + "," + runs(s2) + "," + runs(s3) + "," + runs(moved) + "," + runs(v1.substr(0, n)) + "," + runs(value.subvalues[0]) + "," + runs(value.str()) + ","
            + runs(coil::toStdString(v1)) + "," + runs(coil::fromStdString(t)) + "," + runs(plain.str()) + "," + runs(coil::sprintf("%s", t.c_str())) + "," + runs(coil::sprintf("%.*s", v1.slength(), v1.data())) + ","
            + runs(coil::StringView{s1.cStr()}) + "," + runs(coil::String{v1.substr(0, n - 1)} + chosen.c_str()) + "," + runs(coil::TypeSerializer<coil::String>::toString(s1)) + "]";
        o += ",\"fmt\":" + runs(coil::sprintf("%s|%d", t.c_str(), static_cast<int>(n))) + ",\"pad\":" + runs(coil::sprintf("%*d", static_cast<int>(n), 7));
        std::ostringstream wide;
        wide << std::setfill('.') << std::setw(static_cast<int>(n + 10)) << v1;
        o += ",\"wide\":" + runs(wide.str());
        o += ",\"eq\":[" + flag(v1 == v2) + "," + flag(s1 == s2) + "," + flag(s1 == v2) + "," + flag(coil::Hash<coil::StringView>{}(v1) == coil::Hash<coil::String>{}(s2)) + "]";
        o += ",\"ne\":[" + flag(v1 == shorter) + "," + flag(s1 == coil::String{shorter}) + "," + flag(coil::Value{v1} == coil::Value{shorter}) + "," + flag(shorter == v1) + "]";
        o += ",\"len\":" + std::to_string(v1.length() == s1.length() && v1.slength() == s1.slength() ? v1.length() : 0);
    }
    else
        abort();
}

int main(int argc, char** argv)
{
    if (argc != 4)
        return 3;
    for (auto& l : readLines(argv[1]))
    {
        auto f = split(l);
        if (f.size() == 4)
            cfgs.push_back({unhex(f[0]), unhex(f[1]), unhex(f[2]), unhex(f[3])});
    }
    auto programs = readLines(argv[2]);
    g_out = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    runJobs(
        programs.size(), 60,
        [&](size_t i) {
            auto f = split(programs[i]);
            Bytes o = "{\"t\":\"" + f.at(0) + "\",\"how\":\"ok\"";
            if (f[0] == "lex")
                lexProgram(o, f);
            else if (f[0] == "conv")
                convProgram(o, f);
            else if (f[0] == "vec")
                vecProgram(o, f);
            else if (f[0] == "str")
                strProgram(o, f);
            else if (f[0] == "map")
                mapProgram(o, f);
            else if (f[0] == "reg")
                regProgram(o, f);
            else
                cmdProgram(o, f);
            writeAll(o + "}\n");
        },
        [&](size_t i, char const* how) {
            writeAll("{\"t\":\"" + split(programs[i]).at(0) + "\",\"how\":\"" + how + "\"}\n");
        });
    return 0;
}
