// big_driver: conversions of long texts and of many subvalues
#include "big_core.h"
#include "conv_probe.h"

using namespace big;

std::map<vh::Bytes, vh::Factory>& vh::probes()
{
    static std::map<Bytes, Factory> m;
    return m;
}

namespace
{
    template<typename T>
    void listTexts(std::vector<Bytes>& o, std::vector<T> const& v);
    template<typename T>
    void listTexts(std::vector<Bytes>& o, std::optional<T> const& v);

    template<typename T>
    void texts(std::vector<Bytes>& o, T const& v)
    {
        if constexpr (std::is_same_v<T, bool>)
            o.push_back(v ? "true" : "false");
        else if constexpr (std::is_floating_point_v<T>)
        {
            char buf[64];
            snprintf(buf, sizeof(buf), "%.*Lg", std::is_same_v<T, float> ? 6 : 15, static_cast<long double>(v));
            o.push_back(buf);
        }
        else if constexpr (std::is_integral_v<T>)
            o.push_back(std::to_string(v));
        else if constexpr (std::is_same_v<T, Color>)
            o.push_back(colorNames[static_cast<size_t>(v)]);
        else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>)
            o.push_back(Bytes{v});
        else if constexpr (std::is_same_v<T, coil::String> || std::is_same_v<T, coil::StringView>)
            o.push_back(v.length() ? Bytes{v.data(), v.length()} : Bytes{});
        else if constexpr (std::is_same_v<T, coil::Value>)
            for (coil::StringView s : v.subvalues)
                o.push_back({s.data(), s.length()});
        else if constexpr (std::is_same_v<T, Point>)
            o.insert(o.end(), {std::to_string(v.x), std::to_string(v.y)});
        else
            return listTexts(o, v);
    }
    template<typename T>
    void listTexts(std::vector<Bytes>& o, std::vector<T> const& v)
    {
        for (T const& x : v)
            texts(o, x);
    }
    template<typename T>
    void listTexts(std::vector<Bytes>& o, std::optional<T> const& v)
    {
        if (v)
            texts(o, *v);
    }
    template<typename T>
    Bytes shown(T const& v)
    {
        std::vector<Bytes> t;
        texts(t, v);
        Runs r;
        for (auto& x : t)
            r.add(runs(x));
        return r.text();
    }

    struct Job
    {
        coil::Value v;
        size_t roff, rper, eoff, eper;

        Bytes error(coil::StringView e) const
        {
            // the number of subvalues at the end is shown as @
            Bytes t{e.data(), e.length()}, tail = " subvalues, got " + std::to_string(v.subvalues.size());
            if (t.size() >= tail.size() && t.compare(t.size() - tail.size(), tail.size(), tail) == 0)
                t = t.substr(0, t.size() - std::to_string(v.subvalues.size()).size()) + "@";
            return chunks(t, eoff, eper);
        }
        Bytes rendered(coil::StringView r) const { return chunks({r.data(), r.length()}, roff, rper); }
    };

    template<typename T>
    void run(Bytes& o, Job const& job)
    {
        coil::Bindings b;
        Bytes calls;
        b["f"] = [&](T const& v) {
            calls += shown(v);
            return v;
        };
        coil::ExecutionInput in;
        in.name = "f";
        in.arguments.pushBack(job.v);
        auto r = b.execute(coil::move(in));
        o += ",\"seen\":[{\"c\":[" + calls + "],\"e\":[";
        for (auto& e : r.errors)
            o += (o.back() == '[' ? "" : ",") + job.error(e);
        o += "],\"r\":[" + (r.returnValue ? job.rendered(*r.returnValue) : "") + "]}";
        if constexpr (!std::is_same_v<T, coil::Value>)
        {
            auto x = job.v.get<T>();
            if (x)
            {
                coil::String s = coil::TypeSerializer<T>::toString(*x);
                o += ",{\"c\":[" + shown(*x) + "],\"e\":[],\"r\":[" + job.rendered(s) + "]}";
            }
            else
                o += ",{\"c\":[],\"e\":[" + job.error(x.error()) + "],\"r\":[]}";
        }
        o += "]";
    }

    std::map<Bytes, void (*)(Bytes&, Job const&)> const types = {
        {"int", run<int>}, {"uchar", run<unsigned char>}, {"ullong", run<unsigned long long>}, {"double", run<double>}, {"float", run<float>}, {"bool", run<bool>},
        {"string", run<coil::String>}, {"sview", run<coil::StringView>}, {"stdstr", run<std::string>}, {"stdview", run<std::string_view>}, {"value", run<coil::Value>}, {"color", run<Color>}, {"point", run<Point>},
        {"vec.int", run<std::vector<int>>}, {"vec.string", run<std::vector<coil::String>>}, {"vec.stdstr", run<std::vector<std::string>>}, {"vec.double", run<std::vector<double>>}, {"vec.uchar", run<std::vector<unsigned char>>},
        {"opt.int", run<std::optional<int>>}, {"opt.stdstr", run<std::optional<std::string>>}, {"opt.string", run<std::optional<coil::String>>},
    };
}

void big::convProgram(Bytes& o, Op const& f)
{
    bool many = f.at(2) == "1";
    size_t n = static_cast<size_t>(atol(f.at(5).c_str()));
    auto num = [&](size_t i) { return static_cast<size_t>(atol(f.at(i).c_str())); };
    o += ",\"ty\":[";
    for (auto& t : split(f.at(1), '.'))
        o += (o.back() == '[' ? "\"" : ",\"") + t + "\"";
    o += "],\"many\":" + flag(many) + ",\"n\":" + f.at(5) + ",\"unit\":" + bytes(unhex(f.at(4)));
    Job job{{}, num(7), num(8), num(9), num(10)};
    o += ",\"roff\":" + f.at(7) + ",\"rper\":" + f.at(8) + ",\"eoff\":" + f.at(9) + ",\"eper\":" + f.at(10);
    std::vector<Exact> blocks;
    auto add = [&](Bytes const& t) {
        blocks.emplace_back(t);
        job.v.subvalues.pushBack(coil::StringView{blocks.back().get(), t.size()});
    };
    if (many)
    {
        auto list = [&](Bytes const& x) {
            Bytes r;
            if (x != "_")
                for (auto& t : split(x, ','))
                {
                    add(unhex(t));
                    r += (r.empty() ? "" : ",") + bytes(unhex(t));
                }
            return "[" + r + "]";
        };
        o += ",\"pre\":" + list(f.at(3));
        for (size_t i = 0; i < n; i++)
            add(unhex(f.at(4)));
        o += ",\"suf\":" + list(f.at(6));
    }
    else
    {
        Bytes t = unhex(f.at(3));
        for (size_t i = 0; i < n; i++)
            t += unhex(f.at(4));
        add(t + unhex(f.at(6)));
        o += ",\"pre\":" + bytes(unhex(f.at(3))) + ",\"suf\":" + bytes(unhex(f.at(6)));
    }
    types.at(f.at(1))(o, job);
}
