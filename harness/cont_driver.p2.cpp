// coil::String and coil::StringView
#include "cont_core.h"

namespace ct
{
    using coil::String;
    using coil::StringView;

    struct Strings : Container
    {
        std::unique_ptr<String> v[Slots];

        static Bytes dump(String& x)
        {
            String const& c = x;
            StringView view = c;
            StringView copy = view;
            Ways ways;
            auto add = [&](char const* p, size_t n) { ways.add(text(Bytes{p, n})); };
            add(c.data(), c.length());
            add(c.cStr(), c.length());
            add(c.begin(), static_cast<size_t>(c.end() - c.begin()));
            if (c.length())
                add(x.data(), c.length());
            add(view.data(), view.length());
            add(copy.begin(), static_cast<size_t>(copy.end() - copy.begin()));
            Bytes indexed;
            for (size_t i = 0; i < view.length(); i++)
                indexed += view[i];
            ways.add(text(indexed));
            if (!indexed.empty())
            {
                indexed.back() = c.back();
                ways.add(text(indexed));
                indexed.back() = x.back();
                ways.add(text(indexed));
            }
            Ways lengths;
            lengths.add(std::to_string(c.length()));
            lengths.add(std::to_string(c.slength()));
            lengths.add(std::to_string(view.length()));
            lengths.add(std::to_string(view.slength()));
            Ways empty;
            empty.add(c.empty() ? "true" : "false");
            empty.add(view.empty() ? "true" : "false");
            Ways hash;
            hash.add("\"" + std::to_string(coil::Hash<String>{}(c)) + "\"");
            hash.add("\"" + std::to_string(coil::Hash<StringView>{}(view)) + "\"");
            // shown up to the terminator
            Bytes z{c.cStr()};
            return "{\"ways\":" + ways.json() + ",\"len\":" + lengths.json() + ",\"empty\":" + empty.json() + ",\"z\":" + text(z) + ",\"term\":" + std::to_string(c.cStr()[c.length()]) + ",\"hash\":" + hash.json() + "}";
        }
        void done() override
        {
            Bytes o = "[";
            for (int i = 0; i < Slots; i++)
                o += Bytes(i ? "," : "") + "[" + (v[i] ? dump(*v[i]) : "") + "]";
            field("all", o + "]");
            end();
        }
        void run(Op const& op) override
        {
            Bytes const& e = op[0];
            int a = num(op, 1) & 3, b = num(op, 2);
            String* x = v[a].get();
            String* y = v[b & 3].get();
            auto slots = [&] {
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>((b & 3) + 1));
            };
            auto one = [&](char const* n = nullptr) {
                begin(op);
                field("s", static_cast<long>(a + 1));
                if (n)
                    field(n, static_cast<long>(b));
            };
            auto arg = [&](size_t i) { return i < op.size() ? unhex(op[i]) : Bytes{}; };
            auto noNul = [](Bytes const& s) { return s.find('\0') == Bytes::npos; };
            if (e == "make" && !x && op.size() == 4)
            {
                Bytes s = arg(2);
                Bytes const& how = op[3];
                // the argument lies in a buffer of exactly its size
                Exact exact{s};
                if (how == "c" && noNul(s))
                    v[a] = std::make_unique<String>(s.c_str());
                else if (how == "none" && s.empty())
                    v[a] = std::make_unique<String>();
                else if (how == "view")
                    v[a] = std::make_unique<String>(StringView{exact.get(), s.size()});
                else
                    v[a] = std::make_unique<String>(exact.get(), s.size());
                one();
                field("t", text(s));
            }
            else if (e == "cctor" && !x && y)
                v[a] = std::make_unique<String>(static_cast<String const&>(*y)), slots();
            else if (e == "mctor" && !x && y)
                v[a] = std::make_unique<String>(coil::move(*y)), slots();
            else if (e == "cas" && x && y)
                *x = static_cast<String const&>(*y), slots();
            else if (e == "mas" && x && y)
                *x = coil::move(*y), slots();
            else if ((e == "app" && x || e == "cat" && !x && y) && op.size() >= 4)
            {
                Bytes const& how = op.back();
                Bytes s = arg(op.size() - 2);
                Exact exact{s};
                String const* from = e == "app" ? x : y;
                bool app = e == "app";
                auto put = [&](String&& r) { v[a] = std::make_unique<String>(coil::move(r)); };
                if (how == "c" && noNul(s))
                    app ? void(*x += s.c_str()) : put(*from + s.c_str());
                else if (how == "char" && s.size() == 1)
                    app ? void(*x += s[0]) : put(*from + s[0]);
                else if (how == "str")
                {
                    String t{exact.get(), s.size()};
                    app ? void(*x += t) : put(*from + t);
                }
                else if (how == "view" || !app)
                {
                    StringView t{exact.get(), s.size()};
                    app ? void(*x += t) : put(*from + t);
                }
                else
                    x->append(exact.get(), s.size());
                if (app)
                    one();
                else
                    slots();
                field("t", text(s));
            }
            else if (e == "apps" && x && op.size() == 6) // appends (a part of) a string, also of itself
            {
                size_t off = static_cast<size_t>(num(op, 3)), len = static_cast<size_t>(num(op, 4));
                if (!y || off > y->length() || len > y->length() - off)
                    return;
                Bytes const& how = op[5];
                String const& s = *y;
                if (how == "str" && off == 0 && len == s.length())
                    *x += s;
                else if (how == "view")
                    *x += StringView{s}.substr(off, len);
                else if (how == "c" && off + len == s.length() && noNul(Bytes{s.cStr() + off, len}))
                    *x += s.cStr() + off;
                else if (how == "char" && len == 1)
                    *x += *(s.begin() + off);
                else
                    x->append(s.cStr() + off, len);
                begin(op);
                field("d", static_cast<long>(a + 1));
                field("s", static_cast<long>((b & 3) + 1));
                field("off", static_cast<long>(off));
                field("len", static_cast<long>(len));
            }
            else if (e == "reserve" && x)
                x->reserve(static_cast<size_t>(b)), one("n");
            else if (e == "resize" && x && op.size() == 4)
            {
                size_t old = x->length(), n = static_cast<size_t>(b);
                Bytes c = arg(3);
                if (c.empty())
                    return;
                x->resize(n);
                for (size_t i = old; i < n && i < x->length(); i++)
                    x->data()[i] = c[0]; // (what it grows by is not specified)
                one("n");
                field("c", static_cast<long>(static_cast<unsigned char>(c[0])));
            }
            else if (e == "put" && x && op.size() == 5 && b < static_cast<int>(x->length()))
            {
                Bytes c = arg(3);
                if (c.empty())
                    return;
                if (op[4] == "back" && b + 1 == static_cast<int>(x->length()))
                    x->back() = c[0];
                else
                    x->data()[b] = c[0];
                one("i");
                field("c", static_cast<long>(static_cast<unsigned char>(c[0])));
            }
            else if (e == "cmp" && x && y)
            {
                slots();
                String const &l = *x, &r = *y;
                Ways w;
                w.add(l == r ? "true" : "false");
                w.add(r == l ? "true" : "false");
                w.add(l == StringView{r} ? "true" : "false");
                w.add(StringView{l} == StringView{r} ? "true" : "false");
                w.add(StringView{l} != StringView{r} ? "false" : "true");
                if (noNul(Bytes{r.cStr(), r.length()}))
                    w.add(l == r.cStr() ? "true" : "false");
                field("eq", w.json());
            }
            else if (e == "cmpt" && x)
            {
                Bytes s = arg(2);
                String const& l = *x;
                Ways w;
                Exact exact{s};
                StringView t{exact.get(), s.size()};
                w.add(l == t ? "true" : "false");
                w.add(t == StringView{l} ? "true" : "false");
                w.add(t != StringView{l} ? "false" : "true");
                w.add(l == String{exact.get(), s.size()} ? "true" : "false");
                if (noNul(s))
                {
                    w.add(l == s.c_str() ? "true" : "false");
                    w.add(StringView{l} == StringView{s.c_str()} ? "true" : "false");
                }
                one();
                field("t", text(s));
                field("eq", w.json());
            }
            else if (e == "sub" && x && op.size() == 4)
            {
                size_t off = static_cast<size_t>(num(op, 2)), len = static_cast<size_t>(num(op, 3));
                if (off > x->length() || len > x->length() - off)
                    return;
                StringView view = *x;
                StringView sub = view.substr(off, len);
                StringView rest = view.substr(off, view.length() - off).substr(0, len);
                Ways w;
                w.add(text(Bytes{sub.data(), sub.length()}));
                w.add(text(Bytes{sub.begin(), sub.end()}));
                w.add(text(Bytes{rest.begin(), rest.end()}));
                String made{sub};
                w.add(text(Bytes{made.cStr(), made.length()}));
                one();
                field("off", static_cast<long>(off));
                field("len", static_cast<long>(len));
                field("sub", w.json());
            }
            else if (e == "drop" && x)
                v[a].reset(), one();
            else
                return;
            done();
        }
        void finish() override
        {
            for (int i = 0; i < Slots; i++)
                run({"drop", std::to_string(i)});
        }
    };

    static AddMaker a1{"str", [] { return static_cast<Container*>(new Strings); }};
}
