// conv_driver INPUTS OUT
// INPUTS: "<type> <hex subvalue>..." per line; see conv_probe.h for what is recorded.
#include "conv_probe.h"

#include <fcntl.h>

std::map<vh::Bytes, vh::Factory>& vh::probes()
{
    static std::map<Bytes, Factory> m;
    return m;
}

using namespace vh;

static Register regCString{"cstr", []() -> std::unique_ptr<Probe> { return std::make_unique<ProbeCString>(); }};

int main(int argc, char** argv)
{
    if (argc != 3)
        return 3;
    auto inputs = readLines(argv[1]);
    g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);

    auto head = [&](size_t i, Bytes& o) {
        auto f = split(inputs[i]);
        o += "{\"t\":[";
        bool first = true;
        for (auto& t : split(f.at(0), '.'))
        {
            if (!first)
                o += ',';
            first = false;
            o += "\"" + t + "\"";
        }
        o += "],\"s\":[";
        for (size_t j = 1; j < f.size(); j++)
        {
            if (j > 1)
                o += ',';
            putBytes(o, unhex(f[j]));
        }
#if COIL_CONFIG_TYPE_NAME_USE_INTEGER_ALIAS
        o += "],\"al\":true";
#else
        o += "],\"al\":false";
#endif
    };

    std::map<Bytes, std::unique_ptr<Probe>> live;
    runJobs(
        inputs.size(), 20,
        [&](size_t i) {
            auto f = split(inputs[i]);
            // exact bytes in heap blocks of their own: reading past the end is caught
            std::vector<Exact> blocks;
            Subs subs;
            for (size_t j = 1; j < f.size(); j++)
            {
                Bytes t = unhex(f[j]);
                blocks.emplace_back(t);
                subs.push_back(coil::StringView{blocks.back().get(), t.size()});
            }
            auto& p = live[f.at(0)];
            if (!p)
            {
                auto it = probes().find(f.at(0));
                if (it == probes().end())
                {
                    fprintf(stderr, "no probe for %s\n", f.at(0).c_str());
                    kill(getpid(), SIGKILL);
                }
                p = it->second();
            }
            Bytes o;
            head(i, o);
            o += ",\"how\":\"ok\"";
            p->run(o, subs);
            o += "}\n";
            writeAll(o);
        },
        [&](size_t i, char const* how) {
            Bytes o;
            head(i, o);
            o += ",\"how\":\"";
            o += how;
            o += "\"}\n";
            writeAll(o);
        });
    return 0;
}
