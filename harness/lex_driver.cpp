// lex_driver CONFIGS INPUTS OUT
// CONFIGS: one "groups quotes seps spaces" (hex) per line; INPUTS: "<config> <hex text>" per line.
// For every text: what DefaultLexer::parse says, and what Bindings::execute does with it.
#include "vh.h"

#include "coil/Coil.h"
#include "coil/detail/DefaultLexer.h"
#include "coil/detail/ExecutionInput.h"
#include "coil/detail/ExecutionResult.h"
#include "coil/detail/Expected.h"

#include <fcntl.h>
#include <memory>

using namespace vh;

static void put(Bytes& o, coil::StringView s)
{
    putBytes(o, s.data(), s.length());
}

static void put(Bytes& o, coil::Value const& v)
{
    o += '[';
    for (size_t i = 0; i < v.subvalues.size(); i++)
    {
        if (i)
            o += ',';
        put(o, v.subvalues[i]);
    }
    o += ']';
}

static void putArgs(Bytes& o, coil::Vector<coil::Value> const& args)
{
    o += '[';
    for (size_t i = 0; i < args.size(); i++)
    {
        if (i)
            o += ',';
        put(o, args[i]);
    }
    o += ']';
}

static void putNamed(Bytes& o, coil::NamedValue const* b, coil::NamedValue const* e)
{
    o += '[';
    for (auto it = b; it != e; ++it)
    {
        if (it != b)
            o += ',';
        o += "{\"k\":";
        put(o, it->key);
        o += ",\"v\":";
        put(o, it->value);
        o += '}';
    }
    o += ']';
}

static void putInput(Bytes& o, coil::ExecutionInput const& in)
{
    o += "\"n\":";
    put(o, in.name);
    o += ",\"a\":";
    putArgs(o, in.arguments);
    o += ",\"k\":";
    putNamed(o, in.namedArguments.begin(), in.namedArguments.end());
}

static Bytes g_calls;

static void called(coil::Context& ctx, std::initializer_list<coil::Value const*> args)
{
    if (!g_calls.empty())
        g_calls += ',';
    g_calls += "{\"a\":[";
    bool first = true;
    for (auto a : args)
    {
        if (!first)
            g_calls += ',';
        first = false;
        put(g_calls, *a);
    }
    g_calls += "],\"k\":";
    auto named = ctx.namedArgs();
    putNamed(g_calls, named.begin(), named.end());
    g_calls += '}';
}

using V = coil::Value;
static coil::Vector<coil::AnyFunctor> catchAll()
{
    return coil::overloaded(
        [](coil::Context c) { called(c, {}); },
        [](coil::Context c, V const& a) { called(c, {&a}); },
        [](coil::Context c, V const& a, V const& b) { called(c, {&a, &b}); },
        [](coil::Context c, V const& a, V const& b, V const& d) { called(c, {&a, &b, &d}); },
        [](coil::Context c, V const& a, V const& b, V const& d, V const& e) { called(c, {&a, &b, &d, &e}); });
}

int main(int argc, char** argv)
{
    if (argc != 4)
        return 3;
    struct Cfg
    {
        Bytes g, q, s, w;
    };
    std::vector<Cfg> cfgs;
    for (auto& l : readLines(argv[1]))
    {
        auto f = split(l);
        if (f.size() == 4)
            cfgs.push_back({unhex(f[0]), unhex(f[1]), unhex(f[2]), unhex(f[3])});
    }
    auto inputs = readLines(argv[2]);
    g_out = open(argv[3], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    auto view = [](Bytes const& b) { return coil::StringView{b.data(), b.size()}; };

    std::vector<std::unique_ptr<coil::DefaultLexer>> lexers;
    std::vector<std::unique_ptr<coil::Bindings>> registries;
    for (auto const& cfg : cfgs)
    {
        Cfg c = cfg; // the delimiters given live no longer than the construction
        lexers.emplace_back(new coil::DefaultLexer{view(c.g), view(c.q), view(c.s), view(c.w)});
        registries.emplace_back(new coil::Bindings{});
        if (&cfg != &cfgs[0]) // the first configuration is the built-in default
            registries.back()->setLexer(coil::makeUnique<coil::DefaultLexer>(view(c.g), view(c.q), view(c.s), view(c.w)));
        for (auto decoy : {"a", "b", "f", "x", "a b"})
            (*registries.back())[decoy] = catchAll();
        for (Bytes* f : {&c.g, &c.q, &c.s, &c.w})
            for (char& x : *f)
                x = 'a';
    }

    auto head = [&](size_t i, Bytes& o) {
        auto f = split(inputs[i]);
        o += "{\"c\":" + f.at(0) + ",\"s\":";
        putBytes(o, unhex(f.at(1)));
    };

    runJobs(
        inputs.size(), 20,
        [&](size_t i) {
            auto f = split(inputs[i]);
            size_t c = static_cast<size_t>(atoi(f.at(0).c_str())) - 1;
            // the exact bytes in a heap block of their own: reading past the end is caught
            Bytes text = unhex(f.at(1));
            Exact exact{text};
            coil::StringView sv{exact.get(), text.size()};

            Bytes o;
            head(i, o);
            o += ",\"how\":\"ok\",\"p\":{";
            coil::Bindings& b = *registries[c];
            auto parsed = lexers[c]->parse(sv);
            if (parsed)
            {
                o += "\"ok\":true,";
                putInput(o, *parsed);
                if (!parsed->name.empty() && !b.get(parsed->name))
                    b[parsed->name] = catchAll();
            }
            else
            {
                o += "\"ok\":false,\"msg\":";
                put(o, parsed.error());
            }
            g_calls.clear();
            coil::ExecutionResult r = b.execute(sv);
            o += "},\"x\":{";
            putInput(o, r.input);
            o += ",\"e\":[";
            for (size_t e = 0; e < r.errors.size(); e++)
            {
                if (e)
                    o += ',';
                put(o, r.errors[e]);
            }
            o += "],\"r\":[";
            if (r.returnValue)
                put(o, *r.returnValue);
            o += "],\"o\":";
            put(o, r.output);
            o += ",\"c\":[" + g_calls + "]}}\n";
            writeAll(o);
        },
        [&](size_t i, char const* how) {
            Bytes o;
            head(i, o);
            o += ",\"how\":\"";
            o += how;
            o += "\"}\n";
            writeAll(o);
        });
    return 0;
}
