// exec_driver HISTORIES OUT              one history per line
// exec_driver --lock GROUPS OUT          SCHEDULE|HISTORY|HISTORY...: a thread per history, one running at a time; SCHEDULE: the
//                                        threads (from 0) whose turns the next operations are ("_": none), then # and a seed
// exec_driver --free GROUPS OUT          the same, all running at once
// exec_driver --hand HISTORIES OUT       _#SEED|HISTORY: a history whose operations outside of commands are done by three threads in turn
// HISTORIES: one history per line, operations separated by ';', fields by ' ' (texts in hex, lists of texts separated
// by ',', '_' for the empty list).  Operations inside a running command's body are those that follow the call in the
// stream, up to its 'r' (return) or 't' (throw).  Whatever makes no sense at its place is skipped.
//   b R NAME API OVERLOAD...   bind: API p (proxy) or a (add); OVERLOAD <shape><kind>[idx], v<cell>, p/r/s/q/Q/f/F/g<cell>
//   A K                        the K-th allocation of the b that follows fails
//   d OVERLOAD...              make an overload list and drop it
//   w R NAME OVERLOAD...       through one proxy: nullptr, then bind
//   R I                        the I-th last result, looked at again
//   u R NAME / U R NAME        remove / assign nullptr through the proxy
//   c R   g R NAME   N R   D R   m DST SRC   M DST SRC   L R KIND
//   x R TEXT                   execute a text
//   i R NAME ARGS NAMED        execute an input: ARGS a/b (lists), NAMED key:list/key:list ('_' none)
//   r LIST / rn / t KIND TEXT  return, return null, throw
//   l KIND TEXT   e LIST   q   n KEY TYPE   k KEY TYPE REQ DEFAULT(list or '_')   E    inside a body with a context
//   s CELL LIST                the program writes to a cell
// a NAME @<hex> of b, u, U and g is given by the registry's own description of that command, where it has one
#include "exec_core.h"

#include <fcntl.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

// (linked with --wrap)
extern "C" void* __real__Znwm(size_t);
extern "C" void* __real__Znam(size_t);
static void allocating()
{
    auto& fuse = ex::fuse;
    if (fuse.allocs > 0 && --fuse.allocs == 0)
    {
        fuse.burnt = true;
        throw std::bad_alloc{};
    }
}
extern "C" void* __wrap__Znwm(size_t n)
{
    allocating();
    return __real__Znwm(n);
}
extern "C" void* __wrap__Znam(size_t n)
{
    allocating();
    return __real__Znam(n);
}

namespace ex
{
    thread_local World* w = nullptr;
    Host hosts[2] = {{0}, {1}};

    std::map<int, ShapeBase*>& shapes()
    {
        static std::map<int, ShapeBase*> m;
        return m;
    }

    thread_local Fuse fuse;

    Token::Token(int id) : id(id)
    {
        Unfailing u;
        if (id >= 0 && w)
            w->born.push_back(id);
    }
    Token::Token(Token&& rhs) : id(rhs.id)
    {
        Unfailing u;
        if (id >= 0 && w)
            w->moved.push_back(id);
        rhs.id = -1;
    }
    Token::Token(Token const& rhs) : id(rhs.id)
    {
        Unfailing u;
        if (id >= 0 && w)
            w->moved.push_back(-id);
    }
    Token::~Token()
    {
        Unfailing u;
        if (id >= 0 && w)
            w->dead.push_back(id);
        id = -2;
    }

    static void noteSet(int cell, void (*show)(Bytes&, void const*), void const* v)
    {
        if (!w->sets.empty())
            w->sets += ',';
        w->sets += "{\"c\":" + std::to_string(cell) + ",\"v\":";
        show(w->sets, v);
        w->sets += '}';
    }
    template<typename T>
    void noteSet(int cell, T const& v)
    {
        noteSet(cell, [](Bytes& o, void const* p) { ShowT<T>::show(o, *static_cast<T const*>(p)); }, &v);
    }

    static void pauseWithin();
    int Obj::getNum() const
    {
        pauseWithin();
        w->gets++;
        return num;
    }
    void Obj::setNum(int v)
    {
        pauseWithin();
        noteSet(numCell, v);
        num = v;
    }
    int Obj::exchangeNum(int v)
    {
        int old = num;
        setNum(v);
        return old;
    }
    Obj& Obj::chainNum(int const& v)
    {
        setNum(v);
        return *this;
    }
    coil::String const& Obj::getText() const
    {
        pauseWithin();
        w->gets++;
        return text;
    }
    void Obj::setText(coil::String const& v)
    {
        pauseWithin();
        noteSet(numCell + 2, v);
        text = v;
    }
    static int freeGet(Obj const* o) { return o->getNum(); }
    static void freeSet(Obj* o, int v) { o->setNum(v); }

    // events -----------------------------------------------------------------------------------
    void begin(char const* name)
    {
        if (!w->ev.empty())
            w->ev += ',';
        w->ev += "{\"e\":\"";
        w->ev += name;
        w->ev += '"';
    }
    static void list(char const* name, std::vector<int>& v)
    {
        w->ev += ",\"";
        w->ev += name;
        w->ev += "\":[";
        for (size_t i = 0; i < v.size(); i++)
            w->ev += (i ? "," : "") + std::to_string(v[i]);
        w->ev += ']';
        v.clear();
    }
    static void noteOrder();
    void finish()
    {
        list("dead", w->dead);
        std::vector<int> mv;
        for (int t : w->moved)
        {
            bool known = false;
            for (int u : mv)
                known = known || u == t;
            if (!known)
                mv.push_back(t);
        }
        w->moved.clear();
        list("mv", mv);
        list("lxdead", w->lexers);
        w->ev += '}';
        w->events++;
        noteOrder();
    }
    static std::vector<int>* order = nullptr; // whose events these were (one thread runs at a time)
    static thread_local int self = 0;

    // One thread runs at a time, and says at each point of control of ours who goes on.
    struct Turns
    {
        std::mutex m;
        std::condition_variable cv;
        std::vector<bool> alive;
        int turn = -1;
        std::vector<int> picks; // for the next operations
        size_t pick = 0;
        unsigned seed = 1;

        int next()
        {
            seed = seed * 1664525u + 1013904223u;
            int n = static_cast<int>((seed >> 16) % alive.size());
            for (size_t i = 0; i < alive.size(); i++, n++)
                if (alive[static_cast<size_t>(n) % alive.size()])
                    return static_cast<int>(static_cast<size_t>(n) % alive.size());
            return -1;
        }
        void wait(std::unique_lock<std::mutex>& lock) { cv.wait(lock, [&] { return turn == self; }); }
        // operation: between two operations, or within one?
        void pause(bool operation)
        {
            std::unique_lock<std::mutex> lock(m);
            int to = self;
            if (pick < picks.size())
            {
                if (!operation)
                    return;
                to = picks[pick++];
                if (static_cast<size_t>(to) >= alive.size() || !alive[static_cast<size_t>(to)])
                    to = self;
            }
            else if ((seed >> 8) % 3)
                to = next();
            else
                next();
            if (to == self)
                return;
            turn = to;
            cv.notify_all();
            wait(lock);
        }
        void leave()
        {
            std::unique_lock<std::mutex> lock(m);
            alive[static_cast<size_t>(self)] = false;
            int to = pick < picks.size() ? picks[pick++] : next();
            if (to < 0 || static_cast<size_t>(to) >= alive.size() || !alive[static_cast<size_t>(to)])
                to = next();
            turn = to;
            cv.notify_all();
        }
    };
    static Turns* turns = nullptr;

    static void noteOrder()
    {
        if (order)
            order->push_back(self);
    }
    static void pauseWithin()
    {
        if (turns)
            turns->pause(false);
    }
    static thread_local bool fresh = false; // the first turn was given at the start
    static void pauseBetween()
    {
        if (turns && !fresh)
            turns->pause(true);
        fresh = false;
    }

    static void num(char const* name, int v)
    {
        w->ev += ",\"";
        w->ev += name;
        w->ev += "\":" + std::to_string(v);
    }
    static void bytes(char const* name, Bytes const& b)
    {
        w->ev += ",\"";
        w->ev += name;
        w->ev += "\":";
        putBytes(w->ev, b);
    }
    static void word(char const* name, Bytes const& b)
    {
        w->ev += ",\"";
        w->ev += name;
        w->ev += "\":\"" + b + "\"";
    }

    static void putValue(Bytes& o, coil::Value const& v) { ShowT<coil::Value>::show(o, v); }
    static void putNamed(Bytes& o, coil::NamedValue const* b, coil::NamedValue const* e)
    {
        o += '[';
        for (auto it = b; it != e; ++it)
        {
            o += it == b ? "{\"k\":" : ",{\"k\":";
            put(o, it->key);
            o += ",\"v\":";
            putValue(o, it->value);
            o += '}';
        }
        o += ']';
    }
    static void putInput(Bytes& o, coil::ExecutionInput const& in)
    {
        o += "{\"name\":";
        put(o, in.name);
        o += ",\"args\":[";
        for (size_t i = 0; i < in.arguments.size(); i++)
        {
            if (i)
                o += ',';
            putValue(o, in.arguments[i]);
        }
        o += "],\"named\":";
        putNamed(o, in.namedArguments.begin(), in.namedArguments.end());
        o += '}';
    }
    static void putCommand(Bytes& o, coil::Bindings::Command const& c)
    {
        o += "{\"n\":";
        put(o, c.name);
        o += ",\"fs\":[";
        for (size_t i = 0; i < c.functors.size(); i++)
        {
            coil::AnyFunctor const& f = c.functors[i];
            o += i ? ",{\"ar\":" : "{\"ar\":";
            o += std::to_string(f.arity()) + ",\"ps\":[";
            for (size_t j = 0; j < f.parameterTypes().size(); j++)
            {
                if (j)
                    o += ',';
                put(o, f.parameterTypes()[j]);
            }
            o += "],\"rt\":";
            put(o, f.returnType());
            o += '}';
        }
        o += "]}";
    }
    static void putStore()
    {
        Bytes& o = w->ev;
        auto next = [&] { o += ','; };
        o += ",\"store\":[";
        ShowT<int>::show(o, w->v1), next();
        ShowT<int>::show(o, w->v2), next();
        ShowT<coil::String>::show(o, w->v3), next();
        ShowT<std::vector<int>>::show(o, w->v4), next();
        ShowT<int>::show(o, w->v5), next();
        ShowT<Color>::show(o, w->v6), next();
        ShowT<int>::show(o, w->a.num), next();
        ShowT<int>::show(o, w->b.num), next();
        ShowT<coil::String>::show(o, w->a.text), next();
        ShowT<int>::show(o, w->v10), next();
        ShowT<bool>::show(o, w->v11), next();
        ShowT<std::optional<int>>::show(o, w->v12), next();
        ShowT<double>::show(o, w->v13), next();
        ShowT<Point>::show(o, w->v14), next();
        ShowT<std::vector<coil::String>>::show(o, w->v15), next();
        ShowT<std::optional<coil::String>>::show(o, w->v16), next();
        ShowT<std::string>::show(o, w->v17), next();
        ShowT<long long>::show(o, w->v18), next();
        ShowT<Bomb>::show(o, w->v19);
        o += ']';
    }

    void enter(int tag, Bytes const& args)
    {
        begin("enter");
        num("tag", tag);
        w->ev += ",\"args\":" + args;
        finish();
    }

    // lexers -----------------------------------------------------------------------------------
    // a text in a heap block of its own, spoilt afterwards
    struct Temp
    {
        explicit Temp(Bytes const& t) : exact(t) {}
        coil::StringView view() const { return {exact.get(), exact.size()}; }
        Exact exact;
    };

    // a name given from outside, or by a registry's own description
    struct Name
    {
        Name(coil::Bindings& b, Bytes const& field) : bytes(unhex(field[0] == '@' ? field.substr(1) : field)), temp(bytes)
        {
            view = temp.view();
            if (field[0] == '@')
                if (auto* cmd = b.get(view))
                    view = cmd->name;
        }
        Bytes bytes;
        Temp temp;
        coil::StringView view;
    };

    struct TrackedLexer : coil::Lexer
    {
        int id;
        Bytes kind;
        coil::DefaultLexer def;
        coil::DefaultLexer custom;

        // the delimiters given live no longer than the construction
        TrackedLexer(int id, Bytes kind) : id(id), kind(kind), custom{Temp{"[]"}.view(), Temp{"`"}.view(), Temp{":"}.view(), Temp{" _"}.view()} {}
        ~TrackedLexer() override
        {
            if (w)
                w->lexers.push_back(id);
        }
        coil::Expected<coil::ExecutionInput, coil::String> parse(coil::StringView str) const override
        {
            pauseWithin();
            if (kind == "custom")
                return custom.parse(str);
            if (kind == "fail")
                return coil::makeUnexpected(coil::String{str});
            if (kind == "whole")
            {
                coil::ExecutionInput in;
                in.name = str;
                return in;
            }
            return def.parse(str);
        }
    };

    // overloads --------------------------------------------------------------------------------
    static Bytes const cellTypes[] = {"", "\"int\"", "\"int\"", "\"string\"", "\"vec\",\"int\"", "\"int\"", "\"color\"", "\"int\"", "\"int\"", "\"string\"", "\"int\"", "\"bool\"", "\"opt\",\"int\"", "\"double\"", "\"point\"", "\"vec\",\"string\"", "\"opt\",\"string\"", "\"stdstr\"", "\"llong\"", "\"bomb\""};

    static coil::Vector<coil::AnyFunctor> variableOf(int c)
    {
        switch (c)
        {
        case 1:
            return coil::variable(&w->v1);
        case 2:
            return coil::variable(&w->v2);
        case 3:
            return coil::variable(&w->v3);
        case 4:
            return coil::variable(&w->v4);
        case 5:
            return coil::variable(static_cast<int const*>(&w->v5));
        case 6:
            return coil::variable(&w->v6);
        case 11:
            return coil::variable(&w->v11);
        case 12:
            return coil::variable(&w->v12);
        case 13:
            return coil::variable(&w->v13);
        case 14:
            return coil::variable(&w->v14);
        case 15:
            return coil::variable(&w->v15);
        case 16:
            return coil::variable(&w->v16);
        case 17:
            return coil::variable(&w->v17);
        case 18:
            return coil::variable(&w->v18);
        case 19:
            return coil::variable(&w->v19);
        }
        return {};
    }

    struct Built
    {
        coil::Vector<coil::AnyFunctor> fs;
        Bytes desc;
        bool bad = false;
    };

    static void accessors(Bytes& o, int c, char const* get, char const* set, Bytes const& setType)
    {
        if (!o.empty())
            o += ',';
        o += Bytes("{\"tag\":0,\"tok\":false,\"k\":\"") + get + "\",\"ps\":[],\"rt\":[" + cellTypes[c] + "],\"ctx\":false,\"c\":" + std::to_string(c) + "},";
        o += Bytes("{\"tag\":0,\"tok\":false,\"k\":\"") + set + "\",\"ps\":[[" + setType + "]],\"rt\":[" + cellTypes[c] + "],\"ctx\":false,\"c\":" + std::to_string(c) + "}";
    }

    static bool isToken(char kind) { return kind == 'L' || kind == 'M' || kind == 'U'; }

    static bool parseShape(Bytes const& s, ShapeBase*& shape, char& kind, int& idx)
    {
        size_t i = 0;
        while (i < s.size() && isdigit(static_cast<unsigned char>(s[i])))
            i++;
        if (i == 0 || i >= s.size())
            return false;
        auto it = shapes().find(atoi(s.substr(0, i).c_str()));
        if (it == shapes().end())
            return false;
        shape = it->second;
        kind = s[i];
        if (strchr("NPXSU", kind) && !shape->extended())
            kind = kind == 'U' ? 'L' : 'O';
        idx = i + 1 < s.size() ? s[i + 1] - '0' : 0;
        return true;
    }

    static void addOverload(Built& b, Bytes const& s)
    {
        ShapeBase* shape = nullptr;
        char kind = 0;
        int idx = 0;
        if (parseShape(s, shape, kind, idx))
        {
            bool tok = isToken(kind);
            int tag = tok ? w->nextToken++ : shape->staticTag(kind, idx);
            if (!b.desc.empty())
                b.desc += ',';
            shape->desc(b.desc, tag, tok);
            b.fs.pushBack(shape->make(kind, tag, idx));
            return;
        }
        int c = atoi(s.c_str() + 1);
        coil::Vector<coil::AnyFunctor> v;
        auto type = cellTypes[c];
        if (s[0] == 'v')
        {
            v = variableOf(c);
            accessors(b.desc, c, "get", c == 5 ? "roset" : "set", type);
        }
        else if (s[0] == 'p' && c == 10)
        {
            v = coil::property(
                []() -> int const& {
                    w->gets++;
                    return w->v10;
                },
                [](int const& x) {
                    noteSet(10, x);
                    if (x != 13)
                        w->v10 = x;
                });
            accessors(b.desc, c, "pget", "pset", type);
        }
        else if (s[0] == 's' && c == 10)
        {
            // a setter may return something
            v = coil::property([]() { return w->gets++, w->v10; },
                               [](int x) {
                                   noteSet(10, x);
                                   int old = w->v10;
                                   if (x != 13)
                                       w->v10 = x;
                                   return old;
                               });
            accessors(b.desc, c, "pget", "pset", type);
        }
        else if (s[0] == 'x' && c == 10)
        {
            // accessors that are left by exceptions
            v = coil::property(
                []() {
                    w->gets++;
                    if (w->v10 == 15)
                        throw std::runtime_error("no");
                    return w->v10;
                },
                [](int x) {
                    noteSet(10, x);
                    if (x == 14)
                        throw std::runtime_error("no");
                    if (x != 13)
                        w->v10 = x;
                });
            accessors(b.desc, c, "xget", "xset", type);
        }
        else if (s[0] == 'g' && (c == 7 || c == 8))
        {
            Obj* o = c == 8 ? &w->b : &w->a;
            v = c == 8 ? coil::bindProperty(&Obj::getNum, &Obj::exchangeNum, o) : coil::bindProperty(&Obj::getNum, &Obj::chainNum, o);
            accessors(b.desc, c, "pget", "pset", type);
        }
        else if (s[0] == 'r' && c == 10)
        {
            v = coil::property([]() {
                w->gets++;
                return w->v10;
            });
            accessors(b.desc, c, "pget", "proset", "\"value\"");
        }
        else if ((s[0] == 'q' || s[0] == 'Q' || s[0] == 'f' || s[0] == 'F') && c >= 7 && c <= 9)
        {
            Obj* o = c == 8 ? &w->b : &w->a;
            bool ro = s[0] == 'Q' || s[0] == 'F';
            if (c == 9)
                v = ro ? coil::bindProperty(&Obj::getText, o) : coil::bindProperty(&Obj::getText, &Obj::setText, o);
            else if (s[0] == 'f')
                v = coil::bindProperty(&freeGet, &freeSet, o);
            else if (s[0] == 'F')
                v = coil::bindProperty(&freeGet, static_cast<Obj const*>(o));
            else
                v = ro ? coil::bindProperty(&Obj::getNum, static_cast<Obj const*>(o)) : coil::bindProperty(&Obj::getNum, &Obj::setNum, o);
            accessors(b.desc, c, "pget", ro ? "proset" : "pset", type);
        }
        else
        {
            b.bad = true;
            return;
        }
        for (size_t i = 0; i < v.size(); i++)
            b.fs.pushBack(coil::move(v[i]));
    }

    static int slot(Bytes const& s) { return (s.empty() ? 0 : s[0] - '0') & 3; }

    static void putOutcome(coil::ExecutionResult const& r)
    {
        w->ev += ",\"errs\":[";
        for (size_t i = 0; i < r.errors.size(); i++)
        {
            if (i)
                w->ev += ',';
            put(w->ev, r.errors[i]);
        }
        w->ev += "],\"out\":";
        put(w->ev, r.output);
        w->ev += ",\"ret\":[";
        if (r.returnValue)
            put(w->ev, *r.returnValue);
        w->ev += ']';
    }

    static void endOk(coil::ExecutionResult const& r)
    {
        begin("end");
        w->ev += ",\"x\":{\"in\":";
        putInput(w->ev, r.input);
        putOutcome(r);
        w->ev += "},\"exc\":[]";
    }
    static void endExc(char const* kind, Bytes const& text)
    {
        begin("end");
        w->ev += ",\"x\":{\"in\":{\"name\":[],\"args\":[],\"named\":[]},\"errs\":[],\"out\":[],\"ret\":[]},\"exc\":[{\"k\":\"";
        w->ev += kind;
        w->ev += "\",\"s\":";
        putBytes(w->ev, text);
        w->ev += "}]";
    }
    template<typename Call>
    void execute(int r, Call call)
    {
        finish();
        w->busy[r]++;
        w->depth++;
        coil::ExecutionResult kept;
        try
        {
            coil::ExecutionResult result = call();
            endOk(result);
            kept = coil::move(result);
        }
        catch (std::runtime_error const& e)
        {
            endExc("std", e.what());
        }
        catch (Derived const& e)
        {
            endExc("derived", e.text);
        }
        catch (std::exception const& e)
        {
            endExc("unknown", e.what());
        }
        catch (int i)
        {
            endExc("int", std::to_string(i));
        }
        catch (Foreign const& f)
        {
            endExc("foreign", f.text);
        }
        w->depth--;
        w->busy[r]--;
        w->ev += ",\"sets\":[" + w->sets + "],\"g\":" + std::to_string(w->gets);
        w->sets.clear();
        w->gets = 0;
        putStore();
        finish();
        w->past.push_back(coil::move(kept));
        if (w->past.size() > 4)
            w->past.pop_front();
    }

    // named arguments --------------------------------------------------------------------------
    template<typename T>
    void namedGet(coil::Context& ctx, Bytes const& key)
    {
        Temp k{key};
        auto r = ctx.namedArgs().get<T>(k.view());
        w->ev += ",\"t\":[" + Code<T>::code() + "],\"out\":{";
        if (r)
        {
            w->ev += "\"ok\":true,\"v\":";
            ShowT<T>::show(w->ev, *r);
        }
        else
        {
            w->ev += "\"ok\":false,\"ty\":";
            w->ev += r.error().type == coil::NamedArgs::Error::Type::MissingKey ? "\"missing\"" : "\"mismatch\"";
            w->ev += ",\"e\":";
            put(w->ev, r.error().message);
        }
        w->ev += '}';
    }
    template<>
    void namedGet<coil::Value>(coil::Context& ctx, Bytes const& key)
    {
        Temp k{key};
        auto r = ctx.namedArgs().get(k.view());
        w->ev += ",\"t\":[\"value\"],\"out\":{";
        if (r)
        {
            w->ev += "\"ok\":true,\"v\":";
            putValue(w->ev, r->get());
        }
        else
        {
            w->ev += "\"ok\":false,\"ty\":";
            w->ev += r.error().type == coil::NamedArgs::Error::Type::MissingKey ? "\"missing\"" : "\"mismatch\"";
            w->ev += ",\"e\":";
            put(w->ev, r.error().message);
        }
        w->ev += '}';
    }
    template<typename T>
    void namedReport(coil::Context& ctx, Bytes const& key, bool req, Bytes const& def)
    {
        Temp k{key};
        coil::Optional<T> d;
        T v{};
        if (def != "_" && MakeT<T>::make(subsOf(def), v))
            d = v;
        w->ev += ",\"t\":[" + Code<T>::code() + "],\"def\":[";
        if (d)
            ShowT<T>::show(w->ev, *d);
        w->ev += "],\"out\":[";
        coil::Optional<T> r = ctx.namedArgs().getOrReport<T>(k.view(), req ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional, d);
        if (r)
            ShowT<T>::show(w->ev, *r);
        w->ev += ']';
    }
    template<>
    void namedReport<coil::Value>(coil::Context& ctx, Bytes const& key, bool req, Bytes const&)
    {
        Temp k{key};
        w->ev += ",\"t\":[\"value\"],\"def\":[],\"out\":[";
        coil::Value const* r = ctx.namedArgs().getOrReport(k.view(), req ? coil::NamedArgs::ArgType::Required : coil::NamedArgs::ArgType::Optional);
        if (r)
            putValue(w->ev, *r);
        w->ev += ']';
    }

    template<typename F>
    bool withType(Bytes const& t, F f)
    {
        if (t == "int")
            f(static_cast<int*>(nullptr));
        else if (t == "bool")
            f(static_cast<bool*>(nullptr));
        else if (t == "string")
            f(static_cast<coil::String*>(nullptr));
        else if (t == "color")
            f(static_cast<Color*>(nullptr));
        else if (t == "point")
            f(static_cast<Point*>(nullptr));
        else if (t == "vec.int")
            f(static_cast<std::vector<int>*>(nullptr));
        else if (t == "opt.int")
            f(static_cast<std::optional<int>*>(nullptr));
        else if (t == "value")
            f(static_cast<coil::Value*>(nullptr));
        else
            return false;
        return true;
    }

    // operations -------------------------------------------------------------------------------
    static void bodyOp(Op const& op, coil::Context& ctx)
    {
        auto& f = op.f;
        char c = f[0][0];
        if (c == 'l' && f.size() == 3)
        {
            Bytes t = unhex(f[2]);
            if (f[1] == "log")
                ctx.log(coil::String{coil::StringView{t.data(), t.size()}});
            else if (f[1] == "line")
                ctx.logline(coil::String{coil::StringView{t.data(), t.size()}});
            else if (f[1] == "logf")
                ctx.logf("<%s>", t.c_str());
            else if (f[1] == "linef")
                ctx.loglinef("<%s>", t.c_str());
            else if (f[1] == "fmt")
                ctx.logf("%d:%s|%5s|%c%%", static_cast<int>(t.size()), t.c_str(), t.c_str(), 'z');
            else if (f[1] == "linefmt")
                ctx.loglinef("%zu:%-6s|%.3s|%05d", t.size(), t.c_str(), t.c_str(), static_cast<int>(t.size()));
            else
                return;
            begin("log");
            word("k", f[1]);
            bytes("s", t);
            finish();
        }
        else if (c == 'e' && f.size() == 2)
        {
            Subs s = subsOf(f[1]);
            if (s.size() == 2)
                ctx.reportErrors(coil::String{s[0]}, coil::String{s[1]});
            else if (s.size() == 3)
                ctx.reportErrors(coil::String{s[0]}, coil::String{s[1]}, coil::String{s[2]});
            else
                for (auto& x : s)
                    ctx.reportError(coil::String{x});
            begin("report");
            w->ev += ",\"errs\":[";
            for (size_t i = 0; i < s.size(); i++)
            {
                if (i)
                    w->ev += ',';
                put(w->ev, s[i]);
            }
            w->ev += ']';
            finish();
        }
        else if (c == 'q')
        {
            begin("haserr");
            w->ev += ctx.hasErrors() ? ",\"v\":true" : ",\"v\":false";
            finish();
        }
        else if (c == 'n' && f.size() == 3)
        {
            Bytes k = unhex(f[1]);
            withType(f[2], [&](auto* p) {
                begin("nget");
                bytes("k", k);
                namedGet<std::remove_pointer_t<decltype(p)>>(ctx, k);
                finish();
            });
        }
        else if (c == 'k' && f.size() == 5)
        {
            Bytes k = unhex(f[1]);
            withType(f[2], [&](auto* p) {
                begin("nrep");
                bytes("k", k);
                w->ev += f[3] == "1" ? ",\"req\":true" : ",\"req\":false";
                namedReport<std::remove_pointer_t<decltype(p)>>(ctx, k, f[3] == "1", f[4]);
                finish();
            });
        }
        else if (c == 'E')
        {
            auto named = ctx.namedArgs();
            begin("nall");
            num("size", static_cast<int>(named.size()));
            w->ev += ",\"all\":";
            putNamed(w->ev, named.begin(), named.end());
            finish();
        }
    }

    static void doOp(Op const& op, coil::Context* ctx)
    {
        auto& f = op.f;
        char c = f[0][0];
        auto reg = [&](size_t i) -> coil::Bindings* { return i < f.size() ? w->regs[slot(f[i])].get() : nullptr; };

        long fault = w->fault;
        w->fault = 0;
        if (c == 'A' && f.size() == 2)
        {
            w->fault = atoi(f[1].c_str());
        }
        else if (c == 'b' && f.size() >= 4)
        {
            coil::Bindings* b = reg(1);
            if (!b)
                return;
            w->born.clear();
            fuse.burnt = false;
            auto arm = [&] { fuse.allocs = fault; };
            auto disarm = [&] { fuse.allocs = 0; };
            Bytes n;
            Bytes desc;
            coil::Bindings::Command const* cmd = nullptr;
            ShapeBase* shape = nullptr;
            char kind = 0;
            int idx = 0;
            bool failed = false;
            try
            {
                Name name{*b, f[2]};
                n = name.bytes;
                if (f.size() == 5 && parseShape(f[4], shape, kind, idx) && (f[3] == "a" || f[3] == "p"))
                {
                    bool tok = isToken(kind);
                    int tag = tok ? w->nextToken++ : shape->staticTag(kind, idx);
                    shape->desc(desc, tag, tok);
                    arm();
                    cmd = shape->bindDirect(*b, name.view, f[3][0], kind, tag, idx);
                    disarm();
                }
                else
                {
                    Built built;
                    for (size_t i = 4; i < f.size(); i++)
                        addOverload(built, f[i]);
                    if (built.bad)
                        return;
                    desc = built.desc;
                    arm();
                    if (f[3][0] == 'a' || f[3][0] == 'A')
                        cmd = &b->add(name.view, coil::move(built.fs));
                    else
                        (*b)[name.view] = coil::move(built.fs);
                    disarm();
                }
            }
            catch (std::bad_alloc const&)
            {
                disarm();
                if (!fuse.burnt)
                    throw;
                failed = true;
            }
            if (failed)
            {
                begin("bindfail");
                num("r", slot(f[1]) + 1);
                bytes("n", n);
                w->ev += ",\"fs\":[" + desc + "]";
                list("born", w->born);
                w->ev += ",\"md\":[";
                Temp name{n};
                if (auto* old = b->get(name.view()))
                    putCommand(w->ev, *old);
                w->ev += ']';
                finish();
                return;
            }
            begin("bind");
            num("r", slot(f[1]) + 1);
            bytes("n", n);
            w->ev += ",\"fs\":[" + desc + "],\"md\":";
            if (!cmd)
            {
                Temp name{n};
                cmd = b->get(name.view());
            }
            if (cmd)
                putCommand(w->ev, *cmd);
            else
                w->ev += "{}";
            finish();
        }
        else if (c == 'w' && f.size() >= 3 && reg(1))
        {
            // two assignments through the same proxy
            coil::Bindings& b = *reg(1);
            Bytes n = unhex(f[2]);
            Temp name{n};
            coil::BindingProxy proxy = b[name.view()];
            proxy = nullptr;
            begin("unbind");
            num("r", slot(f[1]) + 1);
            bytes("n", n);
            finish();
            Built built;
            for (size_t i = 3; i < f.size(); i++)
                addOverload(built, f[i]);
            if (built.bad)
                return;
            proxy = coil::move(built.fs);
            begin("bind");
            num("r", slot(f[1]) + 1);
            bytes("n", n);
            w->ev += ",\"fs\":[" + built.desc + "],\"md\":";
            if (auto* cmd = b.get(name.view()))
                putCommand(w->ev, *cmd);
            else
                w->ev += "{}";
            finish();
        }
        else if (c == 'R' && f.size() == 2)
        {
            // an earlier result, as it is now
            size_t i = static_cast<size_t>(atoi(f[1].c_str()));
            if (i >= w->past.size())
                return;
            begin("recall");
            num("i", static_cast<int>(i) + 1);
            w->ev += ",\"x\":{\"a\":0";
            putOutcome(w->past[w->past.size() - 1 - i]);
            w->ev += '}';
            finish();
        }
        else if (c == 'd' && f.size() >= 2)
        {
            Bytes desc;
            {
                Built built;
                for (size_t i = 1; i < f.size(); i++)
                    addOverload(built, f[i]);
                desc = built.desc;
            }
            begin("drop");
            w->ev += ",\"fs\":[" + desc + "]";
            finish();
        }
        else if ((c == 'u' || c == 'U') && f.size() == 3 && reg(1))
        {
            Bytes n;
            {
                Name name{*reg(1), f[2]};
                n = name.bytes;
                if (c == 'u')
                    reg(1)->remove(name.view);
                else
                    (*reg(1))[name.view] = nullptr;
            }
            begin("unbind");
            num("r", slot(f[1]) + 1);
            bytes("n", n);
            finish();
        }
        else if (c == 'c' && f.size() == 2 && reg(1))
        {
            reg(1)->clear();
            begin("clear");
            num("r", slot(f[1]) + 1);
            finish();
        }
        else if (c == 'g' && f.size() == 3 && reg(1))
        {
            Name name{*reg(1), f[2]};
            Bytes n = name.bytes;
            auto* cmd = reg(1)->get(name.view);
            begin("get");
            num("r", slot(f[1]) + 1);
            bytes("n", n);
            w->ev += ",\"md\":[";
            if (cmd)
                putCommand(w->ev, *cmd);
            w->ev += ']';
            finish();
        }
        else if (c == 'N' && f.size() == 2 && !reg(1))
        {
            w->regs[slot(f[1])] = std::make_unique<coil::Bindings>();
            begin("new");
            num("r", slot(f[1]) + 1);
            finish();
        }
        else if (c == 'D' && f.size() == 2 && reg(1) && !w->busy[slot(f[1])])
        {
            w->regs[slot(f[1])].reset();
            begin("delete");
            num("r", slot(f[1]) + 1);
            finish();
        }
        else if (c == 'm' && f.size() == 3 && !reg(1) && reg(2) && !w->busy[slot(f[2])])
        {
            w->regs[slot(f[1])] = std::make_unique<coil::Bindings>(coil::move(*reg(2)));
            begin("mvctor");
            num("d", slot(f[1]) + 1);
            num("s", slot(f[2]) + 1);
            finish();
        }
        else if (c == 'M' && f.size() >= 3 && reg(1) && reg(2) && reg(1) != reg(2) && !w->busy[slot(f[1])] && !w->busy[slot(f[2])])
        {
            *reg(1) = coil::move(*reg(2));
            coil::Bindings& src = *reg(2);
            Bytes found, tried;
            for (size_t i = 3; i < f.size(); i++) // what the source still has of these names
            {
                Bytes n = unhex(f[i]);
                Temp name{n};
                if (!tried.empty())
                    tried += ',';
                putBytes(tried, n);
                if (src.get(name.view()))
                {
                    if (!found.empty())
                        found += ',';
                    putBytes(found, n);
                }
            }
            auto probe = src.execute("nosuch 1"); // the source can be used
            bool usable = probe.errors.size() == 1 && !probe.returnValue && probe.output.empty();
            src.clear();
            src.setLexer(coil::makeUnique<coil::DefaultLexer>());
            begin("mvassign");
            num("d", slot(f[1]) + 1);
            num("s", slot(f[2]) + 1);
            w->ev += ",\"tried\":[" + tried + "],\"found\":[" + found + "],\"usable\":" + (usable ? "true" : "false");
            finish();
        }
        else if (c == 'L' && f.size() == 3 && reg(1))
        {
            int id = w->nextLexer++;
            reg(1)->setLexer(coil::makeUnique<TrackedLexer>(id, f[2]));
            begin("setlexer");
            num("r", slot(f[1]) + 1);
            num("id", id);
            word("k", f[2]);
            finish();
        }
        else if (c == 'x' && f.size() == 3 && reg(1) && w->depth < 1200)
        {
            Bytes t = unhex(f[2]);
            begin("exec");
            num("r", slot(f[1]) + 1);
            w->ev += ",\"mode\":\"text\"";
            bytes("s", t);
            Temp text{t};
            coil::Bindings* b = reg(1);
            execute(slot(f[1]), [&] { return b->execute(text.view()); });
        }
        else if (c == 'i' && f.size() == 5 && reg(1) && w->depth < 1200)
        {
            coil::ExecutionInput in;
            std::vector<std::unique_ptr<Temp>> temps;
            auto view = [&](Bytes const& hex) {
                temps.push_back(std::make_unique<Temp>(unhex(hex)));
                return temps.back()->view();
            };
            auto value = [&](Bytes const& list) {
                coil::Value v;
                if (list != "_")
                    for (auto& h : split(list, ','))
                        v.subvalues.pushBack(view(h));
                return v;
            };
            in.name = view(f[2]);
            if (f[3] != "_")
                for (auto& a : split(f[3], '/'))
                    in.arguments.pushBack(value(a == "=" ? "_" : a));
            if (f[4] != "_")
                for (auto& a : split(f[4], '/'))
                {
                    auto kv = split(a, ':');
                    in.namedArguments.pushBack(coil::NamedValue{view(kv[0]), value(kv[1] == "=" ? "_" : kv[1])});
                }
            begin("exec");
            num("r", slot(f[1]) + 1);
            w->ev += ",\"mode\":\"input\",\"in\":";
            putInput(w->ev, in);
            coil::Bindings* b = reg(1);
            execute(slot(f[1]), [&] { return b->execute(coil::move(in)); });
        }
        else if (c == 's' && f.size() == 3)
        {
            int cell = atoi(f[1].c_str());
            Subs s = subsOf(f[2]);
            begin("poke");
            num("c", cell);
            w->ev += ",\"v\":";
            auto poke = [&](auto& v) {
                using T = std::decay_t<decltype(v)>;
                T x{};
                if (!MakeT<T>::make(s, x))
                    x = T{};
                v = x;
                ShowT<T>::show(w->ev, v);
            };
            switch (cell)
            {
            case 1:
                poke(w->v1);
                break;
            case 2:
                poke(w->v2);
                break;
            case 3:
                poke(w->v3);
                break;
            case 4:
                poke(w->v4);
                break;
            case 5:
                poke(w->v5);
                break;
            case 6:
                poke(w->v6);
                break;
            case 7:
                poke(w->a.num);
                break;
            case 8:
                poke(w->b.num);
                break;
            case 9:
                poke(w->a.text);
                break;
            case 10:
                poke(w->v10);
                break;
            case 11:
                poke(w->v11);
                break;
            case 12:
                poke(w->v12);
                break;
            case 13:
                poke(w->v13);
                break;
            case 14:
                poke(w->v14);
                break;
            case 15:
                poke(w->v15);
                break;
            case 16:
                poke(w->v16);
                break;
            case 17:
                poke(w->v17);
                break;
            case 18:
                poke(w->v18);
                break;
            case 19:
                poke(w->v19);
                break;
            }
            putStore();
            finish();
        }
        else if (ctx)
            bodyOp(op, *ctx);
    }

    Op const* interpret(coil::Context* ctx)
    {
        while (w->pc < w->ops.size())
        {
            pauseBetween();
            Op const& op = w->ops[w->pc++];
            char c = op.f[0][0];
            if (w->depth > 0 && c == 'r')
                return &op;
            if (w->depth > 0 && c == 't' && op.f.size() == 3)
            {
                if (!w->tags.empty() && (w->tags.back() / 1000 == 'N' || w->tags.back() / 1000 == 'X'))
                    continue; // noexcept
                Bytes t = unhex(op.f[2]);
                begin("throw");
                Bytes kind = op.f[1];
                if (kind == "int")
                    t = std::to_string(static_cast<int>(t.size()));
                word("k", kind);
                if (kind == "std" || kind == "derived")
                    t = t.c_str();
                bytes("s", t);
                finish();
                if (kind == "std")
                    throw std::runtime_error(t);
                if (kind == "derived")
                    throw Derived{t};
                if (kind == "int")
                    throw atoi(t.c_str());
                throw Foreign{t};
            }
            doOp(op, ctx);
            if (w->depth == 0 && w->slice > 0 && --w->slice == 0)
                break; // another thread goes on
        }
        return nullptr;
    }
}

using namespace ex;

static Bytes follow(Bytes const& history, World& world)
{
    w = &world;
    for (auto& s : split(history, ';'))
    {
        Op op{split(s)};
        if (!op.f.empty())
            w->ops.push_back(op);
    }
    w->regs[0] = std::make_unique<coil::Bindings>();
    w->regs[1] = std::make_unique<coil::Bindings>();
    interpret(nullptr);
    for (int r = 0; r < 4; r++)
        if (w->regs[r])
        {
            w->regs[r].reset();
            begin("delete");
            num("r", r + 1);
            finish();
        }
    w = nullptr;
    return world.ev;
}

// One history, its operations done by several threads in turn.
static Bytes handed(Bytes const& line)
{
    auto f = split(line, '|');
    World world;
    Turns t;
    t.seed = static_cast<unsigned>(atoi(split(f[0], '#')[1].c_str())) * 2654435761u + 1;
    t.alive.assign(3, true);
    w = &world;
    for (auto& s : split(f[1], ';'))
    {
        Op op{split(s)};
        if (!op.f.empty())
            world.ops.push_back(op);
    }
    w = nullptr;
    int stage = 0; // registries made, operations done, registries gone
    std::vector<std::thread> threads;
    t.turn = t.next();
    for (int i = 0; i < 3; i++)
        threads.emplace_back([&, i] {
            self = i;
            while (true)
            {
                std::unique_lock<std::mutex> l(t.m);
                t.wait(l);
                w = &world;
                if (stage == 0)
                {
                    world.regs[0] = std::make_unique<coil::Bindings>();
                    world.regs[1] = std::make_unique<coil::Bindings>();
                    stage = 1;
                }
                else if (stage == 1)
                {
                    world.slice = 1 + static_cast<int>((t.seed >> 12) % 3);
                    interpret(nullptr);
                    if (world.pc >= world.ops.size())
                        stage = 2;
                }
                else
                {
                    int r = stage - 2;
                    if (r < 4)
                    {
                        if (world.regs[r])
                        {
                            world.regs[r].reset();
                            begin("delete");
                            num("r", r + 1);
                            finish();
                        }
                        stage++;
                    }
                }
                w = nullptr;
                bool over = stage == 6;
                if (over)
                    t.alive[static_cast<size_t>(i)] = false;
                t.turn = t.next();
                t.cv.notify_all();
                if (over)
                    return;
            }
        });
    for (auto& th : threads)
        th.join();
    return "{\"how\":\"ok\",\"ev\":[" + world.ev + "]}\n";
}

static Bytes together(Bytes const& line, bool lock)
{
    auto f = split(line, '|');
    size_t n = f.size() - 1;
    std::vector<std::unique_ptr<World>> worlds;
    for (size_t i = 0; i < n; i++)
        worlds.push_back(std::make_unique<World>());
    Turns t;
    std::vector<int> seen;
    if (lock)
    {
        auto s = split(f[0], '#');
        for (char c : s[0])
            if (c != '_')
                t.picks.push_back(c - '0');
        t.seed = s.size() > 1 ? static_cast<unsigned>(atoi(s[1].c_str())) * 2654435761u + 1 : 1;
        t.alive.assign(n, true);
        turns = &t;
        order = &seen;
    }
    std::vector<std::thread> threads;
    std::atomic<size_t> ready{0};
    for (size_t i = 0; i < n; i++)
        threads.emplace_back([&, i] {
            self = static_cast<int>(i);
            ready.fetch_add(1, std::memory_order_relaxed);
            if (lock)
            {
                std::unique_lock<std::mutex> l(t.m);
                t.wait(l);
            }
            else
                while (ready.load(std::memory_order_relaxed) < n)
                    ;
            fresh = true;
            follow(f[i + 1], *worlds[i]);
            if (lock)
                t.leave();
        });
    if (lock)
    {
        std::unique_lock<std::mutex> l(t.m);
        t.turn = t.picks.empty() ? t.next() : t.picks[t.pick++];
        t.cv.notify_all();
    }
    for (auto& th : threads)
        th.join();
    turns = nullptr;
    order = nullptr;
    Bytes o = "{\"how\":\"ok\",\"th\":[";
    for (size_t i = 0; i < n; i++)
        o += (i ? ",[" : "[") + worlds[i]->ev + "]";
    o += "],\"order\":[";
    if (!lock)
        for (size_t i = 0; i < n; i++)
            seen.insert(seen.end(), worlds[i]->events, static_cast<int>(i));
    for (size_t i = 0; i < seen.size(); i++)
        o += (i ? "," : "") + std::to_string(seen[i] + 1);
    return o + "]}\n";
}

int main(int argc, char** argv)
{
    Bytes mode = argc == 4 ? argv[1] : "";
    if (argc != 3 && mode != "--lock" && mode != "--free" && mode != "--hand")
        return 3;
    auto histories = readLines(argv[argc - 2]);
    g_out = open(argv[argc - 1], O_WRONLY | O_CREAT | O_TRUNC, 0644);

    runJobs(
        histories.size(), mode.empty() ? 20 : 60,
        [&](size_t i) {
            if (mode == "--hand")
            {
                writeAll(handed(histories[i]));
                return;
            }
            if (!mode.empty())
            {
                writeAll(together(histories[i], mode == "--lock"));
                return;
            }
            auto world = std::make_unique<World>();
            writeAll("{\"how\":\"ok\",\"ev\":[" + follow(histories[i], *world) + "]}\n");
        },
        [&](size_t, char const* how) {
            Bytes o = "{\"how\":\"";
            o += how;
            o += mode.empty() || mode == "--hand" ? "\",\"ev\":[]}\n" : "\",\"th\":[],\"order\":[1]}\n";
            writeAll(o);
        });
    return 0;
}
