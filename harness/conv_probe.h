// Probes of one argument type each: what coil makes of a list of subvalues, through every interface.
#pragma once
#include "vh.h"

#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/ExecutionInput.h"
#include "coil/detail/ExecutionResult.h"
#include "coil/detail/Expected.h"

#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

// user-defined types: an enum (serializer chosen by trait) and a structure of two subvalues
enum class Color
{
    Red,
    Green,
    Blue,
};
inline char const* const colorNames[] = {"red", "green", "blue"};

struct Point
{
    int x = 0;
    int y = 0;
};

// a text whose conversion or rendering may be left by an exception
struct Bomb
{
    coil::String text;
};
struct Foreign
{
    std::string text;
};
inline void defuse(coil::StringView s)
{
    if (s.length() > 0 && s[0] == '!')
        throw std::runtime_error(std::string{s.data() + 1, s.length() - 1});
    if (s.length() > 0 && s[0] == '?')
        throw Foreign{std::string{s.data() + 1, s.length() - 1}};
}

namespace coil
{
    template<>
    struct TypeSerializer<Bomb>
    {
        static Expected<Bomb, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<Bomb>(input, 1);
            defuse(input.subvalues[0]);
            return Bomb{String{input.subvalues[0]}};
        }
        static String toString(Bomb const& value)
        {
            defuse(value.text);
            return value.text;
        }
    };

    template<typename E>
    struct TypeSerializer<E, std::enable_if_t<std::is_enum_v<E>>>
    {
        static Expected<E, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 1)
                return errors::createMismatchedSubvaluesError<E>(input, 1);
            for (size_t i = 0; i < 3; i++)
                if (input.subvalues[0] == StringView{colorNames[i]})
                    return static_cast<E>(i);
            return errors::createGenericError<E>(input, "Bad color");
        }
        static String toString(E const& value) { return colorNames[static_cast<size_t>(value)]; }
    };

    template<>
    struct TypeSerializer<Point>
    {
        static Expected<Point, String> fromString(Value const& input)
        {
            if (input.subvalues.size() != 2)
                return errors::createMismatchedSubvaluesError<Point>(input, 2);
            Expected<int, String> x = TypeSerializer<int>::fromString(input.subvalues[0]);
            Expected<int, String> y = TypeSerializer<int>::fromString(input.subvalues[1]);
            if (!x || !y)
                return errors::createGenericError<Point>(input, "Bad point");
            return Point{*x, *y};
        }
        static String toString(Point const& value) { return "<" + TypeSerializer<int>::toString(value.x) + ", " + TypeSerializer<int>::toString(value.y) + ">"; }
    };
}
COIL_CREATE_TYPE_NAME(Color, "Color");
COIL_CREATE_TYPE_NAME(Point, "Point");
COIL_CREATE_TYPE_NAME(Bomb, "Bomb");

namespace vh
{
    using Subs = std::vector<coil::StringView>;

    inline void put(Bytes& o, coil::StringView s) { putBytes(o, s.data(), s.length()); }

    inline void putString(Bytes& o, coil::StringView s) { put(o, s); }

    // how values are shown -------------------------------------------------------------
    template<typename T>
    struct ShowT
    {
        static void show(Bytes& o, T const& v)
        {
            if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>)
            {
                char buf[64];
                int prec = std::is_same_v<T, float> ? 6 : std::is_same_v<T, double> ? 15 : 18;
                snprintf(buf, sizeof(buf), "%.*Lg", prec, static_cast<long double>(v));
                putBytes(o, buf, strlen(buf));
            }
            else if constexpr (std::is_same_v<T, bool>)
                putBytes(o, v ? "true" : "false", v ? 4 : 5);
            else if constexpr (std::is_integral_v<T>)
            {
                char buf[64];
                if (std::is_signed_v<T>)
                    snprintf(buf, sizeof(buf), "%lld", static_cast<long long>(v));
                else
                    snprintf(buf, sizeof(buf), "%llu", static_cast<unsigned long long>(v));
                putBytes(o, buf, strlen(buf));
            }
            else if constexpr (std::is_same_v<T, Color>)
                putBytes(o, colorNames[static_cast<size_t>(v)], strlen(colorNames[static_cast<size_t>(v)]));
            else if constexpr (std::is_same_v<T, Point>)
            {
                o += '[';
                ShowT<int>::show(o, v.x);
                o += ',';
                ShowT<int>::show(o, v.y);
                o += ']';
            }
            else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>)
                putBytes(o, v.data(), v.size());
            else if constexpr (std::is_same_v<T, coil::String> || std::is_same_v<T, coil::StringView>)
                putBytes(o, v.data(), v.length());
            else if constexpr (std::is_same_v<T, Bomb>)
                putBytes(o, v.text.cStr(), v.text.length());
            else if constexpr (std::is_same_v<T, coil::Value>)
            {
                o += '[';
                for (size_t i = 0; i < v.subvalues.size(); i++)
                {
                    if (i)
                        o += ',';
                    put(o, v.subvalues[i]);
                }
                o += ']';
            }
        }
    };
    template<typename T>
    struct ShowT<std::vector<T>>
    {
        static void show(Bytes& o, std::vector<T> const& v)
        {
            o += '[';
            for (size_t i = 0; i < v.size(); i++)
            {
                if (i)
                    o += ',';
                ShowT<T>::show(o, v[i]);
            }
            o += ']';
        }
    };
    template<typename T>
    struct ShowT<std::optional<T>>
    {
        static void show(Bytes& o, std::optional<T> const& v)
        {
            o += '[';
            if (v)
                ShowT<T>::show(o, *v);
            o += ']';
        }
    };

    // values made without coil's conversions -------------------------------------------
    template<typename T>
    struct MakeT
    {
        static bool make(Subs const& s, T& v)
        {
            if constexpr (std::is_same_v<T, coil::Value>)
            {
                for (auto& x : s)
                    v.subvalues.pushBack(x);
                return true;
            }
            else if constexpr (std::is_same_v<T, Bomb>)
            {
                if (s.size() == 1)
                    v.text = coil::String{s[0]};
                return s.size() == 1;
            }
            else if constexpr (std::is_same_v<T, Point>)
                return s.size() == 2 && MakeT<int>::make({s[0]}, v.x) && MakeT<int>::make({s[1]}, v.y);
            else
            {
                if (s.size() != 1)
                    return false;
                Bytes t{s[0].data() ? s[0].data() : "", s[0].length()};
                char* end = nullptr;
                errno = 0;
                if constexpr (std::is_same_v<T, float>)
                    v = strtof(t.c_str(), &end);
                else if constexpr (std::is_same_v<T, double>)
                    v = strtod(t.c_str(), &end);
                else if constexpr (std::is_same_v<T, long double>)
                    v = strtold(t.c_str(), &end);
                else if constexpr (std::is_same_v<T, bool>)
                {
                    v = t == "1" || (t.size() == 4 && strcasecmp(t.c_str(), "true") == 0);
                    return v || t == "0" || (t.size() == 5 && strcasecmp(t.c_str(), "false") == 0);
                }
                else if constexpr (std::is_integral_v<T>)
                {
                    if (std::is_signed_v<T>)
                    {
                        long long x = strtoll(t.c_str(), &end, 10);
                        v = static_cast<T>(x);
                        if (x < static_cast<long long>(std::numeric_limits<T>::min()) || x > static_cast<long long>(std::numeric_limits<T>::max()))
                            return false;
                    }
                    else
                    {
                        size_t i = 0;
                        while (i < t.size() && isspace(static_cast<unsigned char>(t[i])))
                            i++;
                        if (i < t.size() && t[i] == '-')
                            return false;
                        unsigned long long x = strtoull(t.c_str(), &end, 10);
                        v = static_cast<T>(x);
                        if (x > static_cast<unsigned long long>(std::numeric_limits<T>::max()))
                            return false;
                    }
                }
                else if constexpr (std::is_same_v<T, Color>)
                {
                    for (size_t i = 0; i < 3; i++)
                        if (t == colorNames[i])
                        {
                            v = static_cast<Color>(i);
                            return true;
                        }
                    return false;
                }
                else if constexpr (std::is_same_v<T, std::string>)
                {
                    v = t;
                    return true;
                }
                else if constexpr (std::is_same_v<T, coil::String>)
                {
                    if (!t.empty())
                        v = coil::String{t.data(), t.size()};
                    return true;
                }
                else if constexpr (std::is_same_v<T, std::string_view>)
                {
                    v = {s[0].data(), s[0].length()};
                    return true;
                }
                else if constexpr (std::is_same_v<T, coil::StringView>)
                {
                    v = s[0];
                    return true;
                }
                return !t.empty() && errno == 0 && end == t.c_str() + t.size();
            }
        }
    };
    template<typename T>
    struct MakeT<std::vector<T>>
    {
        static bool make(Subs const& s, std::vector<T>& v)
        {
            for (auto& x : s)
            {
                T e{};
                if (!MakeT<T>::make({x}, e))
                    return false;
                v.push_back(e);
            }
            return true;
        }
    };
    template<typename T>
    struct MakeT<std::optional<T>>
    {
        static bool make(Subs const& s, std::optional<T>& v)
        {
            if (s.empty() || (s.size() == 1 && s[0].empty()))
                return true;
            T e{};
            if (!MakeT<T>::make(s, e))
                return false;
            v = e;
            return true;
        }
    };

    // probes ----------------------------------------------------------------------------
    struct Probe
    {
        virtual ~Probe() = default;
        virtual void run(Bytes& o, Subs const& subs) = 0;
    };
    using Factory = std::unique_ptr<Probe> (*)();
    std::map<Bytes, Factory>& probes();

    inline coil::Value valueOf(Subs const& subs)
    {
        coil::Value v;
        for (auto& s : subs)
            v.subvalues.pushBack(s);
        return v;
    }

    inline void putEcho(Bytes& o, Bytes const& calls, coil::ExecutionResult const& r)
    {
        o += "{\"c\":[" + calls + "],\"e\":[";
        for (size_t i = 0; i < r.errors.size(); i++)
        {
            if (i)
                o += ',';
            put(o, r.errors[i]);
        }
        o += "],\"r\":[";
        if (r.returnValue)
            put(o, *r.returnValue);
        o += "]}";
    }

    template<typename T>
    struct ProbeT : Probe
    {
        coil::Bindings bindings;
        Bytes calls;
        T kept{};
        using ConstPtr = std::conditional_t<std::is_same_v<T, char>, char*, T const*>; // (char const* is a C string)

        void called(T const& v)
        {
            if (!calls.empty())
                calls += ',';
            ShowT<T>::show(calls, v);
        }

        ProbeT()
        {
            bindings["echo"] = [this](T v) -> T {
                called(v);
                return v;
            };
            bindings["ref"] = [this](T v) -> T const& {
                called(v);
                kept = v;
                return kept;
            };
            bindings["cref"] = [this](T const& v) -> T& {
                called(v);
                kept = v;
                return kept;
            };
            bindings["ptr"] = [this](T v) -> T* {
                called(v);
                kept = v;
                return &kept;
            };
            bindings["cptr"] = [this](coil::Context, T v) -> ConstPtr {
                called(v);
                kept = v;
                return &kept;
            };
            // a variable and a property of this type: what they hold afterwards counts as received
            bindings["var"] = coil::variable(&kept);
            bindings["prop"] = coil::property([this]() -> T const& { return kept; }, [this](T const& v) { kept = v; });
            bindings["null"] = []() -> T* { return nullptr; };
            bindings["cnull"] = [](coil::Context) -> ConstPtr { return nullptr; };
        }

        coil::ExecutionResult exec(char const* name, Subs const& subs)
        {
            calls.clear();
            coil::ExecutionInput in;
            in.name = name;
            in.arguments.pushBack(valueOf(subs));
            return bindings.execute(coil::move(in));
        }

        void run(Bytes& o, Subs const& subs) override
        {
            coil::Value const v = valueOf(subs);
            for (auto* p : {"echo", "ref", "cref", "ptr", "cptr"})
            {
                auto r = exec(p, subs);
                o += ",\"";
                o += p;
                o += "\":";
                putEcho(o, calls, r);
            }
            for (auto* p : {"var", "prop"})
            {
                kept = T{};
                Bytes initial, now;
                ShowT<T>::show(initial, kept);
                auto r = exec(p, subs);
                ShowT<T>::show(now, kept);
                if (r.errors.empty() || now != initial)
                    calls = now;
                o += ",\"";
                o += p;
                o += "\":";
                putEcho(o, calls, r);
                kept = T{};
            }
            if constexpr (!std::is_same_v<T, coil::Value>)
            {
                auto conv = [&](auto const& e, coil::String const* msg) {
                    if (e)
                    {
                        o += "{\"ok\":true,\"v\":";
                        ShowT<T>::show(o, *e);
                    }
                    else
                    {
                        o += "{\"ok\":false,\"e\":";
                        putString(o, *msg);
                    }
                    o += '}';
                };
                o += ",\"get\":";
                coil::Expected<T, coil::String> g = v.get<T>();
                conv(g, g ? nullptr : &g.error());
                bool rt = true;
                if (g)
                {
                    coil::String rendered = coil::TypeSerializer<T>::toString(*g);
                    coil::Value again{coil::StringView{rendered}};
                    coil::Expected<T, coil::String> h = again.get<T>();
                    Bytes x, y;
                    ShowT<T>::show(x, *g);
                    if (h)
                        ShowT<T>::show(y, *h);
                    rt = x == y;
                }
                o += rt ? ",\"rt\":true" : ",\"rt\":false";

                o += ",\"named\":";
                Bytes before;
                before.swap(o);
                bindings["named"] = [&](coil::Context ctx) {
                    coil::Expected<T, coil::NamedArgs::Error> n = ctx.namedArgs().get<T>("k");
                    conv(n, n ? nullptr : &n.error().message);
                };
                coil::ExecutionInput in;
                in.name = "named";
                in.namedArguments.pushBack(coil::NamedValue{"j", coil::Value{"7"}});
                in.namedArguments.pushBack(coil::NamedValue{"k", valueOf(subs)});
                bindings.execute(coil::move(in));
                before += o.empty() ? "{}" : o;
                o.swap(before);
            }
            o += ",\"ts\":[";
            T made{};
            if (MakeT<T>::make(subs, made))
                putString(o, coil::TypeSerializer<T>::toString(made));
            o += "],\"names\":[";
            put(o, coil::TypeName<T>::name());
            o += ',';
            put(o, bindings.get("echo")->functors[0].parameterTypes()[0]);
            for (auto* p : {"echo", "ref", "cref", "ptr", "cptr", "null", "cnull"})
            {
                o += ',';
                put(o, bindings.get(p)->functors[0].returnType());
            }
            o += "],\"nulls\":[";
            for (auto* p : {"null", "cnull"})
            {
                auto r = bindings.execute(coil::StringView{p});
                if (p[0] == 'c')
                    o += ',';
                putEcho(o, "", r);
            }
            o += ']';
        }
    };

    // C strings and commands without a result: only as return values
    struct ProbeCString : Probe
    {
        coil::Bindings bindings;
        Bytes text;

        ProbeCString()
        {
            bindings["lit"] = [this](coil::Value const&) -> char const* { return text.c_str(); };
            bindings["null"] = [](coil::Value const&) -> char const* { return nullptr; };
            bindings["void"] = [](coil::Value const&) {};
            bindings["logged"] = [this](coil::Context ctx, coil::Value const&) { ctx.log(text.c_str()); };
        }

        void run(Bytes& o, Subs const& subs) override
        {
            text = subs.empty() || subs[0].empty() ? Bytes{} : Bytes{subs[0].data(), subs[0].length()};
            for (auto* p : {"lit", "null", "void", "logged"})
            {
                coil::ExecutionInput in;
                in.name = p;
                in.arguments.pushBack(valueOf(subs));
                auto r = bindings.execute(coil::move(in));
                o += ",\"";
                o += p;
                o += "\":";
                putEcho(o, "", r);
                if (p[0] == 'l' && p[1] == 'o')
                {
                    o += ",\"out\":";
                    put(o, r.output);
                }
            }
            o += ",\"ts\":[";
            putString(o, coil::TypeSerializer<char const*>::toString(text.c_str()));
            o += ',';
            putString(o, coil::TypeSerializer<char const*>::toString(nullptr));
            o += ']';
        }
    };

    struct Register
    {
        Register(char const* code, Factory f) { probes()[code] = f; }
    };
#define PROBE_CAT2(a, b) a##b
#define PROBE_CAT(a, b) PROBE_CAT2(a, b)
#define PROBE(code, ...) \
    static ::vh::Register PROBE_CAT(reg, __LINE__){code, []() -> std::unique_ptr<::vh::Probe> { return std::make_unique<::vh::ProbeT<__VA_ARGS__>>(); }}
#define PROBE4(code, ...)                     \
    PROBE(code, __VA_ARGS__);                 \
    PROBE2_("vec." code, std::vector<__VA_ARGS__>); \
    PROBE3_("opt." code, std::optional<__VA_ARGS__>)
#define PROBE2_(code, ...) \
    static ::vh::Register PROBE_CAT(regv, __LINE__){code, []() -> std::unique_ptr<::vh::Probe> { return std::make_unique<::vh::ProbeT<__VA_ARGS__>>(); }}
#define PROBE3_(code, ...) \
    static ::vh::Register PROBE_CAT(rego, __LINE__){code, []() -> std::unique_ptr<::vh::Probe> { return std::make_unique<::vh::ProbeT<__VA_ARGS__>>(); }}
}
