// cont_driver HISTORIES OUT
// HISTORIES: one history per line, operations separated by ';', fields by ' ' (texts in hex, '-' empty).  The first
// operation names the container.  Operations that make no sense at their place are skipped.
//   vec.<elem>:  make S CAP | from S V,V | cctor D S | mctor D S | cas D S | mas D S | push S V | pushown S I | pop S |
//                resize S N | reserve S N | clear S | put S I V HOW | eq A B | drop S
//   str:         make S TEXT HOW | cctor cas mctor mas | app S TEXT HOW | apps S FROM OFF LEN HOW | cat D S TEXT HOW | reserve S N |
//                resize S N C | put S I C HOW | cmp A B | cmpt S TEXT | sub S OFF LEN | drop S
//   map.<key>:   make S BUCKETS LOAD*100 | ins S K V | insown S K | erase S K HOW | eraseown S K | clear S | mut S K V HOW | cctor mctor cas mas |
//                drop S | hash N (chooses the hash function of the keys)
//   opt:         none S | val S V HOW | cctor mctor cas mas | set S V HOW | reset S | put S V HOW | eq A B | eqv A V | drop S
//   exp:         val S V | err S V HOW | cctor mctor cas mas | setv S V | sete S V HOW | put S V HOW | take S HOW | eq A B | eqv S V | eqe S V | drop S
//   arm copies K | arm allocs K : the K-th copy (or default construction) of an element, or the K-th allocation, of the next
//                operation fails
//   ptr:         make S HOW | set S HOW | null S | mctor D S | mas D S | conv D S | cas D S | drop S     (S 0,1 derived; 2,3 base)
#include "cont_core.h"

#include <fcntl.h>

namespace ct
{
    Tracker tracker;
    Fuse fuse;
    Bytes ev;
    int per = 0;
    std::map<Bytes, Maker>& makers()
    {
        static std::map<Bytes, Maker> m;
        return m;
    }
}

using namespace ct;

// (linked with --wrap)
extern "C" void* __real__Znwm(size_t);
extern "C" void* __real__Znam(size_t);
extern "C" void* __wrap__Znwm(size_t n)
{
    fuse.allocating();
    return __real__Znwm(n);
}
extern "C" void* __wrap__Znam(size_t n)
{
    fuse.allocating();
    return __real__Znam(n);
}

int main(int argc, char** argv)
{
    if (argc != 3)
        return 3;
    auto histories = readLines(argv[1]);
    g_out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);

    runJobs(
        histories.size(), 20,
        [&](size_t i) {
            ev.clear();
            tracker = {};
            fuse = {};
            auto ops = split(histories[i], ';');
            per = ops.empty() || ops[0] == "vec.int" || ops[0] == "vec.char" || ops[0] == "vec.string" || ops[0] == "str" ? 0 : ops[0] == "map.key" ? 2 : 1;
            auto it = makers().find(ops.empty() ? "" : ops[0]);
            if (it == makers().end())
                exit(3);
            {
                std::unique_ptr<Container> c{it->second()};
                Fuse next;
                for (size_t k = 1; k < ops.size(); k++)
                {
                    Op op = split(ops[k]);
                    if (op.empty())
                        continue;
                    if (op[0] == "arm")
                    {
                        (op.size() > 1 && op[1] == "allocs" ? next.allocs : next.copies) = num(op, 2);
                        continue;
                    }
                    bool failed = false;
                    fuse = next;
                    next = {};
                    try
                    {
                        c->run(op);
                    }
                    catch (Fault const&)
                    {
                        failed = true;
                    }
                    catch (std::exception const&)
                    {
                        failed = true;
                    }
                    fuse.off();
                    if (failed)
                        c->threw(op);
                }
                c->finish();
            }
            Bytes o = "{\"how\":\"ok\",\"ev\":[" + ev + "]}\n";
            writeAll(o);
        },
        [&](size_t, char const* how) {
            Bytes o = "{\"how\":\"";
            o += how;
            o += "\",\"ev\":[]}\n";
            writeAll(o);
        });
    return 0;
}
