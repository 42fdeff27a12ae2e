// api_driver INPUTS OUT: texts and untyped values at the API's boundary.  One observation per input line (texts in hex,
// lists of texts separated by ',', '_' for the empty list):
//   view TEXT               a view of the text, its parts, its hash
//   pair TEXT TEXT          comparisons of views, strings, C strings
//   value LIST LIST         comparisons, text and copies of values; named values with the first elements as keys
//   std TEXT                to and from the standard library's strings
//   stream TEXT WIDTH FILL ADJ    written to a stream (ADJ l, r, i or d)
//   format KIND TEXT TEXT NUMBER NUMBER
//   input NAME ARGS NAMED ARGS NAMED    copies and moves of execution inputs (notation of exec_driver)
#include "vh.h"

#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/ExecutionInput.h"
#include "coil/detail/Utils.h"

#include <fcntl.h>

#include <iomanip>
#include <memory>
#include <sstream>
#include <stdarg.h>

using namespace vh;

// a text in a heap block of its own
struct Block
{
    explicit Block(Bytes const& t) : size(t.size()), data(t) {}
    coil::StringView view() const { return {data.get(), size}; }
    size_t size;
    Exact data;
};

static void put(Bytes& o, coil::StringView v)
{
    putBytes(o, v.data(), v.length());
}
static Bytes text(coil::StringView v)
{
    Bytes o;
    put(o, v);
    return o;
}
static Bytes text(Bytes const& v)
{
    Bytes o;
    putBytes(o, v);
    return o;
}
static Bytes flag(bool b)
{
    return b ? "true" : "false";
}
// a property of what is observed
struct Rec
{
    Bytes o;
    Rec& operator()(char const* k, Bytes const& v)
    {
        o += ",\"";
        o += k;
        o += "\":" + v;
        return *this;
    }
    Rec& operator()(char const* k, bool v) { return (*this)(k, flag(v)); }
    Rec& operator()(char const* k, size_t v) { return (*this)(k, std::to_string(v)); }
};

static Bytes listText(coil::Vector<coil::StringView> const& v)
{
    Bytes o = "[";
    for (size_t i = 0; i < v.size(); i++)
        o += (i ? "," : "") + text(v[i]);
    return o + "]";
}

static std::vector<std::unique_ptr<Block>>* blocks;
static coil::StringView keep(Bytes const& t)
{
    blocks->push_back(std::make_unique<Block>(t));
    return blocks->back()->view();
}
static coil::Value valueOf(Bytes const& f)
{
    coil::Value v;
    if (f != "_" && f != "=")
        for (auto& h : split(f, ','))
            v.subvalues.pushBack(keep(unhex(h)));
    return v;
}
static coil::ExecutionInput inputOf(Bytes const& name, Bytes const& args, Bytes const& named)
{
    coil::ExecutionInput in;
    in.name = keep(unhex(name));
    if (args != "_")
        for (auto& a : split(args, '/'))
            in.arguments.pushBack(valueOf(a));
    if (named != "_")
        for (auto& a : split(named, '/'))
        {
            auto kv = split(a, ':');
            in.namedArguments.pushBack(coil::NamedValue{keep(unhex(kv[0])), valueOf(kv[1])});
        }
    return in;
}
static Bytes inputText(coil::ExecutionInput const& in)
{
    Bytes o = "{\"name\":" + text(in.name) + ",\"args\":[";
    for (size_t i = 0; i < in.arguments.size(); i++)
        o += (i ? "," : "") + listText(in.arguments[i].subvalues);
    o += "],\"named\":[";
    for (size_t i = 0; i < in.namedArguments.size(); i++)
        o += (i ? ",{\"k\":" : "{\"k\":") + text(in.namedArguments[i].key) + ",\"v\":" + listText(in.namedArguments[i].value.subvalues) + "}";
    return o + "]}";
}

static coil::String viaList(char const* format, ...)
{
    va_list args;
    va_start(args, format);
    coil::String s = coil::vsprintf(format, args);
    va_end(args);
    return s;
}

template<typename V>
static Bytes indexed(V const& v)
{
    Bytes s;
    for (size_t i = 0; i < v.length(); i++)
        s += v[i];
    return text(s);
}

static Rec observe(std::vector<Bytes> const& f)
{
    Rec r;
    Bytes const& op = f[0];
    if (op == "view")
    {
        Bytes s = unhex(f[1]);
        Block b{s};
        coil::StringView v = b.view();
        coil::StringView copy = v, assigned = "zz";
        assigned = v;
        coil::StringView c = s.c_str();
        coil::StringView def;
        r("s", text(s))("len", v.length())("slen", static_cast<size_t>(v.slength()))("empty", v.empty())("same", v.data() == b.data.get() && v.begin() == v.data() && v.end() == v.data() + b.size);
        r("all", text(Bytes(v.begin(), v.end())))("idx", indexed(v))("copy", text(copy))("asgn", text(assigned))("copysame", copy.data() == v.data() && assigned.data() == v.data());
        r("c", text(c))("csame", c.data() == s.c_str())("def", text(def));
        Bytes parts = "[";
        size_t n = s.size();
        for (size_t off = 0; off <= n; off++)
        {
            size_t step = n < 6 ? 1 : n / 3;
            for (size_t len = 0; off + len <= n; len += step)
            {
                if (n >= 6 && off > 2 && off + 2 < n && off % step)
                    continue;
                coil::StringView p = v.substr(off, len);
                parts += (parts.size() > 1 ? ",{\"o\":" : "{\"o\":") + std::to_string(off) + ",\"n\":" + std::to_string(len) + ",\"at\":" + std::to_string(p.data() - v.data()) + ",\"p\":" + text(p) + "}";
            }
            if (n >= 6 && (off <= 2 || off + 2 >= n))
            {
                coil::StringView p = v.substr(off, n - off);
                parts += ",{\"o\":" + std::to_string(off) + ",\"n\":" + std::to_string(n - off) + ",\"at\":" + std::to_string(p.data() - v.data()) + ",\"p\":" + text(p) + "}";
            }
        }
        r("parts", parts + "]");
        Block b2{s};
        coil::String str{v};
        bool aligned = true;
        for (int i = 0; i < 8; i++)
        {
            Block other{s};
            aligned = aligned && coil::Hash<coil::StringView>{}(other.view()) == coil::Hash<coil::StringView>{}(v) && other.view() == v;
        }
        r("hash", aligned && coil::Hash<coil::StringView>{}(v) == coil::Hash<coil::StringView>{}(b2.view()) && coil::Hash<coil::String>{}(str) == coil::Hash<coil::StringView>{}(v) && coil::Hash<coil::String>{}(coil::String{v}) == coil::Hash<coil::String>{}(str));
        coil::StringView ofString = str;
        r("str", text(coil::StringView{str}))("strsame", ofString.data() == str.cStr() && ofString.length() == str.length())("stridx", text(Bytes(str.begin(), str.end())));
    }
    else if (op == "pair")
    {
        Bytes a = unhex(f[1]), b = unhex(f[2]);
        Block ba{a}, bc{b}, bb{b};
        coil::StringView va = ba.view(), vb = bb.view();
        coil::String sa{va}, sb{vb};
        r("a", text(a))("b", text(b));
        r("vv", va == vb)("nvv", va != vb)("ss", sa == sb)("sv", sa == vb)("sc", sa == b.c_str())("vc", va == b.c_str())("nvc", va != b.c_str())("back", vb == va && sb == sa && sb == va || !(vb == va || sb == sa || sb == va));
        r("hasheq", !(va == vb) || coil::Hash<coil::StringView>{}(va) == coil::Hash<coil::StringView>{}(vb));
    }
    else if (op == "value")
    {
        coil::Value a = valueOf(f[1]), b = valueOf(f[2]);
        r("a", listText(a.subvalues))("b", listText(b.subvalues))("eq", a == b)("ne", a != b)("back", (a == b) == (b == a) && (a != b) == (b != a))("self", a == a && !(a != a));
        coil::String t = a.str();
        r("str", text(coil::StringView{t}))("ser", text(coil::StringView{coil::TypeSerializer<coil::Value>::toString(a)}));
        coil::Value copy = a, assigned = b;
        assigned = a;
        bool ceq = copy == a && assigned == a;
        copy.subvalues.pushBack("more");
        bool indep = copy != a;
        coil::Value moved = coil::move(copy);
        r("ceq", ceq)("indep", indep)("moved", listText(moved.subvalues))("asgn", listText(assigned.subvalues));
        coil::Value vec{coil::Vector<coil::StringView>{a.subvalues}};
        r("vec", listText(vec.subvalues));
        coil::StringView ka = a.subvalues.empty() ? coil::StringView{} : a.subvalues[0], kb = b.subvalues.empty() ? coil::StringView{} : b.subvalues[0];
        coil::NamedValue na{ka, b}, nb{kb, b}, nc{ka, a}, nd{keep(Bytes(ka.data(), ka.length())), a};
        r("nkey", na == nb)("nval", na == nc)("nboth", nc == nd)("nn", (na != nb) == !(na == nb) && (na != nc) == !(na == nc) && (nc != nd) == !(nc == nd));
        coil::Value one = ka;
        r("one", listText(one.subvalues));
        Bytes c{ka.data(), ka.length()};
        coil::Value cstr = c.c_str();
        r("cstr", listText(cstr.subvalues))("none", listText(coil::Value{}.subvalues));
        auto ref = coil::TypeSerializer<coil::Value>::fromString(a);
        r("conv", ref && ref->get() == a);
    }
    else if (op == "std")
    {
        Bytes s = unhex(f[1]);
        Block b{s};
        coil::StringView v = b.view();
        std::string str = coil::toStdString(v);
        std::string_view sv = coil::toStdStringView(v);
        coil::String fs = coil::fromStdString(str);
        coil::String fv = coil::fromStdString(std::string_view{b.data.get(), b.size});
        coil::StringView fsv = coil::fromStdStringView(std::string_view{b.data.get(), b.size});
        coil::StringView fnone = coil::fromStdStringView(std::string_view{});
        coil::String snone = coil::fromStdString(std::string_view{});
        r("s", text(s))("tostr", text(str))("tosv", text(Bytes(sv)))("svsame", sv.data() == v.data())("fromstr", text(coil::StringView{fs}))("fromsv", text(coil::StringView{fv}))("view", text(fsv));
        r("viewsame", fsv.empty() || fsv.data() == b.data.get())("none", text(fnone))("snone", text(coil::StringView{snone}))("term", fs.cStr()[fs.length()] == 0);
        coil::String cs{v};
        r("strto", text(coil::toStdString(cs)))("round", text(coil::StringView{coil::fromStdString(coil::toStdString(cs))}));
    }
    else if (op == "stream")
    {
        Bytes s = unhex(f[1]);
        Block b{s};
        auto written = [&](bool string) {
            std::ostringstream os;
            os << std::setfill(static_cast<char>(hexDigit(f[3][0]) * 16 + hexDigit(f[3][1])));
            if (f[4] == "l")
                os << std::left;
            else if (f[4] == "r")
                os << std::right;
            else if (f[4] == "i")
                os << std::internal;
            os << '<' << std::setw(atoi(f[2].c_str()));
            if (string)
                os << coil::String{b.view()};
            else
                os << b.view();
            os << '>';
            return os.str();
        };
        r("s", text(s))("w", static_cast<size_t>(atoi(f[2].c_str())))("fill", static_cast<size_t>(hexDigit(f[3][0]) * 16 + hexDigit(f[3][1])))("adj", "\"" + f[4] + "\"")("view", text(written(false)))("str", text(written(true)));
    }
    else if (op == "format")
    {
        Bytes s = unhex(f[2]), t = unhex(f[3]);
        int m = atoi(f[4].c_str()), n = atoi(f[5].c_str());
        coil::String x, y;
        auto both = [&](char const* format, auto... a) {
            x = coil::sprintf(format, a...);
            y = viaList(format, a...);
        };
        switch (f[1][0])
        {
        case 's':
            both("%s", s.c_str());
            break;
        case 'p': // no terminator needed
        {
            Block b{s};
            both("%.*s", static_cast<int>(b.size), b.data.get());
            break;
        }
        case 'w':
            both("%*s|", n, s.c_str());
            break;
        case 'd':
            both("%d", m);
            break;
        case 'D':
            both("%*d|", n, m);
            break;
        case 'z':
            both("%0*d", n, m);
            break;
        case 'u':
            both("%zu", static_cast<size_t>(m));
            break;
        case 'c':
            both("%c", n);
            break;
        case 'm':
            both("%d:%s|%%%c<%s>%d", m, s.c_str(), n, t.c_str(), m);
            break;
        case 'f': // nothing but the format
            for (size_t i = 0; i < s.size(); i++)
                if (s[i] == '%')
                    s.insert(i++, 1, '%');
            both(s.c_str());
            s = unhex(f[2]);
            break;
        }
        r("k", "\"" + f[1] + "\"")("s", text(s))("t", text(t))("m", text(Bytes{std::to_string(m)}))("n", std::to_string(n))("x", text(coil::StringView{x}))("y", text(coil::StringView{y}))("term", x.cStr()[x.length()] == 0);
    }
    else if (op == "input")
    {
        coil::ExecutionInput a = inputOf(f[1], f[2], f[3]), b = inputOf(f[1], f[4], f[5]);
        r("a", inputText(a))("b", inputText(b));
        coil::ExecutionInput copy = a, assigned = b;
        assigned = a;
        copy.name = "other";
        copy.arguments.pushBack(coil::Value{"more"});
        if (copy.namedArguments.size())
            copy.namedArguments[0].value = coil::Value{"changed"};
        r("acopy", inputText(assigned))("after", inputText(a));
        coil::ExecutionInput moved = coil::move(assigned);
        r("moved", inputText(moved));
        b = coil::move(moved);
        r("massign", inputText(b));
        a = a;
        r("self", inputText(a));
        r("eq", a.arguments == b.arguments && a.namedArguments == b.namedArguments);
    }
    return r;
}

int main(int argc, char** argv)
{
    if (argc != 3)
        return 3;
    auto inputs = readLines(argv[1]);
    g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    runJobs(
        inputs.size(), 20,
        [&](size_t i) {
            std::vector<std::unique_ptr<Block>> all;
            blocks = &all;
            auto f = split(inputs[i]);
            Rec r = observe(f);
            writeAll("{\"how\":\"ok\",\"op\":\"" + f[0] + "\"" + r.o + "}\n");
        },
        [&](size_t, char const* how) {
            Bytes o = "{\"how\":\"";
            o += how;
            o += "\",\"op\":\"\"}\n";
            writeAll(o);
        });
    return 0;
}
