// The interpreter of operation streams: drives registries, records what happens (see exec_driver.cpp).
#pragma once
#include "conv_probe.h"

#include "coil/detail/DefaultLexer.h"
#include "coil/detail/Lexer.h"

#include <deque>
#include <exception>
#include <stdexcept>

// instantiated once, in exec_driver.p4.cpp
COIL_VARIABLE_EXTERN_TEMPLATE(int);
COIL_ARGUMENT_EXTERN_TEMPLATE(int);
COIL_NAMED_ARGS_EXTERN_TEMPLATE(int);
COIL_VARIABLE_EXTERN_TEMPLATE(double);
COIL_ARGUMENT_EXTERN_TEMPLATE(double);
COIL_NAMED_ARGS_EXTERN_TEMPLATE(double);
COIL_ARGUMENT_EXTERN_TEMPLATE(bool);
COIL_FUNCTION_ARGS_EXTERN_TEMPLATE();
COIL_FUNCTION_ARGS_EXTERN_TEMPLATE(int);
COIL_FUNCTION_ARGS_EXTERN_TEMPLATE(coil::Context, int);
COIL_FUNCTION_ARGS_EXTERN_TEMPLATE(int const&, int const&);

namespace ex
{
    using namespace vh;

    struct World;
    extern thread_local World* w;

    struct Derived : std::exception
    {
        explicit Derived(Bytes t) : text(t) {}
        char const* what() const noexcept override { return text.c_str(); }
        Bytes text;
    };
    using ::Foreign;

    // the allocation that fails (0: none); none of those of the notes made below
    struct Fuse
    {
        long allocs = 0;
        bool burnt = false;
    };
    extern thread_local Fuse fuse;
    struct Unfailing
    {
        long allocs = fuse.allocs;
        Unfailing() { fuse.allocs = 0; }
        ~Unfailing() { fuse.allocs = allocs; }
    };

    // what is destroyed and moved is noted until the next event
    struct Token
    {
        explicit Token(int id);
        Token(Token&& rhs);
        Token(Token const& rhs); // no copy is ever allowed: the event shows it
        Token& operator=(Token const&) = delete;
        ~Token();
        int id;
    };

    struct Obj
    {
        int num = 0;
        coil::String text;
        int numCell;

        int getNum() const;
        void setNum(int v);
        int exchangeNum(int v); // returns the former number
        Obj& chainNum(int const& v);
        coil::String const& getText() const;
        void setText(coil::String const& v);
    };

    struct Op
    {
        std::vector<Bytes> f; // fields
    };

    struct World
    {
        std::unique_ptr<coil::Bindings> regs[4];
        int busy[4] = {0, 0, 0, 0};
        std::vector<Op> ops;
        size_t pc = 0;
        int slice = 0; // operations outside of commands until another thread goes on (0: never)
        int depth = 0;
        std::vector<int> tags;
        int nextToken = 1;
        int nextLexer = 1;
        Bytes ev; // events so far
        size_t events = 0;
        std::vector<int> dead, moved, lexers;
        std::vector<int> born; // since the last operation began
        long fault = 0; // the allocation of the next binding that fails
        Bytes sets;
        int gets = 0;
        std::deque<int> ints;
        std::deque<coil::String> strings;
        std::deque<coil::Value> values;
        std::deque<Bytes> texts;

        // cells
        int v1 = 0, v2 = 0;
        coil::String v3;
        std::vector<int> v4;
        int v5 = 7;
        Color v6 = Color::Red;
        Obj a{0, {}, 7}, b{0, {}, 8};
        int v10 = 0;
        bool v11 = false;
        std::optional<int> v12;
        double v13 = 0;
        Point v14;
        std::vector<coil::String> v15;
        std::optional<coil::String> v16;
        std::string v17;
        long long v18 = 0;
        Bomb v19;

        std::deque<coil::ExecutionResult> past; // the last results
    };

    // the callable that runs
    struct Running
    {
        explicit Running(int tag) { w->tags.push_back(tag); }
        ~Running() { w->tags.pop_back(); }
    };

    // events
    void begin(char const* name);
    void finish(); // adds what died and moved

    Op const* interpret(coil::Context* ctx); // runs operations until a return (null at the end of the stream)
    void enter(int tag, Bytes const& args);

    inline Subs subsOf(Bytes const& f)
    {
        Subs out;
        if (f != "_")
            for (auto& h : split(f, ','))
            {
                w->texts.push_back(unhex(h));
                out.push_back(coil::StringView{w->texts.back().data(), w->texts.back().size()});
            }
        return out;
    }

    template<typename T>
    std::deque<T>& keeper();
    template<>
    inline std::deque<int>& keeper<int>() { return w->ints; }
    template<>
    inline std::deque<coil::String>& keeper<coil::String>() { return w->strings; }
    template<>
    inline std::deque<coil::Value>& keeper<coil::Value>() { return w->values; }

    // type codes, independent of coil's type names
    template<typename T>
    struct Code;
#define EX_CODE(T, s) \
    template<>        \
    struct Code<T>    \
    {                 \
        static Bytes code() { return s; } \
    }
    EX_CODE(void, "\"void\"");
    EX_CODE(int, "\"int\"");
    EX_CODE(bool, "\"bool\"");
    EX_CODE(double, "\"double\"");
    EX_CODE(unsigned char, "\"uchar\"");
    EX_CODE(unsigned short, "\"ushort\"");
    EX_CODE(long long, "\"llong\"");
    EX_CODE(coil::String, "\"string\"");
    EX_CODE(coil::StringView, "\"sview\"");
    EX_CODE(std::string, "\"stdstr\"");
    EX_CODE(std::string_view, "\"stdview\"");
    EX_CODE(coil::Value, "\"value\"");
    EX_CODE(Color, "\"color\"");
    EX_CODE(Point, "\"point\"");
    EX_CODE(Bomb, "\"bomb\"");
    EX_CODE(char const*, "\"cstr\"");
    template<typename T>
    struct Code<std::vector<T>>
    {
        static Bytes code() { return "\"vec\"," + Code<T>::code(); }
    };
    template<typename T>
    struct Code<std::optional<T>>
    {
        static Bytes code() { return "\"opt\"," + Code<T>::code(); }
    };
    template<typename T>
    struct Code<T*>
    {
        static Bytes code() { return "\"ptr\"," + Code<T>::code(); }
    };

    template<typename R>
    R result(Op const* op, Bytes const& args)
    {
        using D = std::decay_t<R>;
        begin("ret");
        w->ev += ",\"args\":" + args + ",\"v\":";
        bool null = op && op->f[0] == "rn";
        Subs subs;
        if (op && op->f.size() > 1)
            subs = subsOf(op->f[1]);
        if constexpr (std::is_void_v<R>)
        {
            w->ev += "[]";
            finish();
            return;
        }
        else if constexpr (std::is_same_v<D, char const*>)
        {
            char const* text = nullptr;
            w->ev += '[';
            if (!null)
            {
                w->texts.push_back(subs.empty() ? Bytes{} : Bytes{subs[0].data(), subs[0].length()});
                text = w->texts.back().c_str();
                putBytes(w->ev, w->texts.back());
            }
            w->ev += ']';
            finish();
            return text;
        }
        else if constexpr (std::is_pointer_v<D>)
        {
            using T = std::remove_const_t<std::remove_pointer_t<D>>;
            T* p = nullptr;
            w->ev += '[';
            if (!null)
            {
                T v{};
                if (!MakeT<T>::make(subs, v))
                    v = T{};
                keeper<T>().push_back(v);
                p = &keeper<T>().back();
                ShowT<T>::show(w->ev, *p);
            }
            w->ev += ']';
            finish();
            return p;
        }
        else
        {
            D v{};
            if (!MakeT<D>::make(subs, v))
                v = D{};
            ShowT<D>::show(w->ev, v);
            finish();
            if constexpr (std::is_reference_v<R>)
            {
                keeper<D>().push_back(v);
                return keeper<D>().back();
            }
            else
                return v;
        }
    }

    struct Host;

    struct ShapeBase
    {
        virtual ~ShapeBase() = default;
        // the kinds of callables: L lambda, M mutable functor, F free function, O method, C const method of a const object;
        // of some shapes also: N noexcept free function, P methods with further qualifiers, S std::function, U mutable lambda
        virtual bool extended() = 0;
        virtual void desc(Bytes& o, int tag, bool tok) = 0;
        virtual int staticTag(char kind, int idx) = 0; // of callables without a token
        virtual coil::AnyFunctor make(char kind, int id, int idx) = 0;
        virtual coil::Bindings::Command const* bindDirect(coil::Bindings& b, coil::StringView name, char api, char kind, int id, int idx) = 0;
    };
    std::map<int, ShapeBase*>& shapes();

    inline coil::AnyFunctor take(coil::Vector<coil::AnyFunctor> v) { return coil::move(v[0]); }

    template<int N, bool Ctx, typename R, typename... A>
    struct Shape;

    struct Host
    {
        int idx;
        template<typename S, typename R, typename... P>
        R call(P... p)
        {
            return S::run(S::tagOf('O', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R ccall(P... p) const
        {
            return S::run(S::tagOf('C', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R p0(P... p) &
        {
            return S::run(S::tagOf('P', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R p1(P... p) const volatile noexcept(false)
        {
            return S::run(S::tagOf('P', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R p2(P... p) const&
        {
            return S::run(S::tagOf('P', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R p3(P... p) volatile&
        {
            return S::run(S::tagOf('P', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R p4(P... p) volatile
        {
            return S::run(S::tagOf('P', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R p5(P... p) const volatile&
        {
            return S::run(S::tagOf('P', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x0(P... p) const& noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x1(P... p) noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x2(P... p) volatile noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x3(P... p) & noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x4(P... p) volatile& noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x5(P... p) const volatile noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x6(P... p) const noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
        template<typename S, typename R, typename... P>
        R x7(P... p) const volatile& noexcept
        {
            return S::run(S::tagOf('X', idx), p...);
        }
    };
    extern Host hosts[2];

    template<typename S, typename R, typename... P>
    struct Fn
    {
        Token t;
        R operator()(P... p)
        {
            int tag = t.id;
            return S::run(tag, p...);
        }
    };

    template<typename S, typename R, typename... P>
    struct ShapeImpl : ShapeBase
    {
        static int tagOf(char kind, int idx)
        {
            return kind == 'F' ? 1000 + S::number * 4 + idx : kind == 'O' || kind == 'C' ? 2000 + S::number * 8 + idx * 2 + (kind == 'C') : kind * 1000 + S::number * 4 + idx;
        }
        static constexpr bool isExtended = S::number < 4 || S::number == 9 || S::number == 18;
        static constexpr int nth = S::number < 4 ? S::number : S::number == 9 ? 4 : 5; // selects the qualifiers
        bool extended() override { return isExtended; }
        template<int I>
        static R noexceptFree(P... p) noexcept
        {
            return S::run(tagOf('N', I), p...);
        }
        // no exception may be thrown in these
        coil::AnyFunctor makeExtended(char kind, int id, int idx)
        {
            if constexpr (isExtended)
                switch (kind)
                {
                case 'N':
                    return idx ? take(coil::overloaded(&ShapeImpl::template noexceptFree<1>)) : take(coil::overloaded(&ShapeImpl::template noexceptFree<0>));
                case 'P':
                    switch (nth)
                    {
                    case 0:
                        return coil::bind(&Host::p0<S, R, P...>, &hosts[idx]);
                    case 1:
                        return coil::bind(&Host::p1<S, R, P...>, static_cast<Host const*>(&hosts[idx]));
                    case 2:
                        return coil::bind(&Host::p2<S, R, P...>, &hosts[idx]);
                    case 3:
                        return coil::bind(&Host::p3<S, R, P...>, &hosts[idx]);
                    case 4:
                        return coil::bind(&Host::p4<S, R, P...>, &hosts[idx]);
                    default:
                        return coil::bind(&Host::p5<S, R, P...>, static_cast<Host const*>(&hosts[idx]));
                    }
                case 'X':
                    switch ((nth + 4 * idx) % 8)
                    {
                    case 0:
                        return coil::bind(&Host::x0<S, R, P...>, &hosts[idx]);
                    case 1:
                        return coil::bind(&Host::x1<S, R, P...>, &hosts[idx]);
                    case 2:
                        return coil::bind(&Host::x2<S, R, P...>, &hosts[idx]);
                    case 3:
                        return coil::bind(&Host::x3<S, R, P...>, &hosts[idx]);
                    case 4:
                        return coil::bind(&Host::x4<S, R, P...>, &hosts[idx]);
                    case 5:
                        return coil::bind(&Host::x5<S, R, P...>, static_cast<Host const*>(&hosts[idx]));
                    case 6:
                        return coil::bind(&Host::x6<S, R, P...>, &hosts[idx]);
                    default:
                        return coil::bind(&Host::x7<S, R, P...>, static_cast<Host const*>(&hosts[idx]));
                    }
                case 'S':
                {
                    std::function<R(P...)> f = [idx](P... p) -> R { return S::run(tagOf('S', idx), p...); };
                    return take(coil::overloaded(coil::move(f)));
                }
                }
            return take(coil::overloaded([t = Token{id}, calls = 0](P... p) mutable -> R {
                calls++;
                int tag = t.id;
                return S::run(tag, p...);
            }));
        }
        template<int I>
        static R free(P... p)
        {
            return S::run(tagOf('F', I), p...);
        }
        static auto lambda(int id)
        {
            return [t = Token{id}](P... p) -> R {
                int tag = t.id;
                return S::run(tag, p...);
            };
        }
        int staticTag(char kind, int idx) override { return tagOf(kind, idx); }
        coil::AnyFunctor make(char kind, int id, int idx) override
        {
            switch (kind)
            {
            case 'L':
                return take(coil::overloaded(lambda(id)));
            case 'M':
                return take(coil::overloaded(Fn<S, R, P...>{Token{id}}));
            case 'F':
                return idx ? take(coil::overloaded(&ShapeImpl::template free<1>)) : take(coil::overloaded(&ShapeImpl::template free<0>));
            case 'O':
                return coil::bind(&Host::call<S, R, P...>, &hosts[idx]);
            default:
                return makeExtended(kind, id, idx);
            case 'C':
                return coil::bind(&Host::ccall<S, R, P...>, static_cast<Host const*>(&hosts[idx]));
            }
        }
        coil::Bindings::Command const* bindDirect(coil::Bindings& b, coil::StringView name, char api, char kind, int id, int idx) override
        {
            if (api == 'a')
                switch (kind)
                {
                case 'L':
                    return &b.add(name, lambda(id));
                case 'M':
                    return &b.add(name, Fn<S, R, P...>{Token{id}});
                case 'F':
                    return idx ? &b.add(name, &ShapeImpl::template free<1>) : &b.add(name, &ShapeImpl::template free<0>);
                }
            else
                switch (kind)
                {
                case 'L':
                    b[name] = lambda(id);
                    return nullptr;
                case 'M':
                    b[name] = Fn<S, R, P...>{Token{id}};
                    return nullptr;
                case 'F':
                    if (idx)
                        b[name] = &ShapeImpl::template free<1>;
                    else
                        b[name] = &ShapeImpl::template free<0>;
                    return nullptr;
                }
            if (api == 'a')
                return &b.add(name, make(kind, id, idx));
            b[name] = make(kind, id, idx);
            return nullptr;
        }
    };

    template<typename... A>
    Bytes showArgs(A const&... a)
    {
        Bytes o = "[";
        [[maybe_unused]] bool first = true;
        ((o += first ? "" : ",", first = false, ShowT<std::decay_t<A>>::show(o, a)), ...);
        return o + "]";
    }

    template<typename R, typename... A>
    void putDesc(Bytes& o, int tag, bool tok, bool ctx)
    {
        o += "{\"tag\":" + std::to_string(tag) + ",\"tok\":" + (tok ? "true" : "false") + ",\"k\":\"user\",\"ps\":[";
        [[maybe_unused]] bool first = true;
        ((o += first ? "[" : ",[", first = false, o += Code<std::decay_t<A>>::code() + "]"), ...);
        o += "],\"rt\":[" + Code<std::decay_t<R>>::code() + "],\"ctx\":" + (ctx ? "true" : "false") + ",\"c\":0}";
    }

    template<int N, typename R, typename... A>
    struct Shape<N, true, R, A...> : ShapeImpl<Shape<N, true, R, A...>, R, std::conditional_t<N % 13 == 0 && N != 0, coil::Context const&, coil::Context>, A...>
    {
        static constexpr int number = N;
        static R run(int tag, coil::Context ctx, A const&... a)
        {
            Running running{tag};
            enter(tag, showArgs(a...));
            Op const* op = interpret(&ctx);
            return result<R>(op, showArgs(a...)); // the arguments as they are now
        }
        void desc(Bytes& o, int tag, bool tok) override { putDesc<R, A...>(o, tag, tok, true); }
    };
    template<int N, typename R, typename... A>
    struct Shape<N, false, R, A...> : ShapeImpl<Shape<N, false, R, A...>, R, A...>
    {
        static constexpr int number = N;
        static R run(int tag, A const&... a)
        {
            Running running{tag};
            enter(tag, showArgs(a...));
            Op const* op = interpret(nullptr);
            return result<R>(op, showArgs(a...));
        }
        void desc(Bytes& o, int tag, bool tok) override { putDesc<R, A...>(o, tag, tok, false); }
    };

    struct AddShape
    {
        AddShape(int n, ShapeBase* s) { shapes()[n] = s; }
    };
#define SHAPE(N, ...) static ::ex::AddShape PROBE_CAT(shape, N){N, new ::ex::Shape<N, __VA_ARGS__>}
}
