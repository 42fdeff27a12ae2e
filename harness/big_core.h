// Very large things: what is observed is written in runs [element, count] (see big_driver.cpp).
#pragma once
#include "vh.h"

#include "coil/Coil.h"
#include "coil/StdLibCompat.h"
#include "coil/detail/ExecutionInput.h"
#include "coil/detail/ExecutionResult.h"
#include "coil/detail/Expected.h"
#include "coil/detail/UnorderedMap.h"
#include "coil/detail/Utils.h"

namespace big
{
    using namespace vh;
    using Op = std::vector<Bytes>;

    class Runs
    {
    public:
        void add(Bytes const& x)
        {
            if (m_count != 0 && x == m_last)
            {
                m_count++;
                return;
            }
            flush();
            m_last = x;
            m_count = 1;
        }
        Bytes text()
        {
            flush();
            return "[" + m_out + "]";
        }

    private:
        void flush()
        {
            if (m_count == 0)
                return;
            if (++m_runs > 3000)
            {
                if (m_runs == 3001)
                    m_out += ",[\"and more\",1]"; // nothing that is expected has so many
            }
            else
                m_out += (m_out.empty() ? "[" : ",[") + m_last + "," + std::to_string(m_count) + "]";
            m_count = 0;
        }
        Bytes m_out, m_last;
        size_t m_count = 0, m_runs = 0;
    };

    inline Bytes bytes(Bytes const& t)
    {
        Bytes o;
        putBytes(o, t.substr(0, 5000));
        return o;
    }
    inline Bytes flag(bool b) { return b ? "true" : "false"; }

    inline Bytes runs(char const* s, size_t n)
    {
        Runs r;
        for (size_t i = 0; i < n; i++)
            r.add(std::to_string(static_cast<unsigned char>(s[i])));
        return r.text();
    }
    inline Bytes runs(Bytes const& s) { return runs(s.data(), s.size()); }
    inline Bytes runs(coil::StringView s) { return runs(s.data(), s.length()); }
    inline Bytes runs(coil::String const& s) { return runs(s.cStr(), s.length()); }

    inline Bytes runsOf(coil::Value const& v)
    {
        Runs r;
        for (size_t i = 0; i < v.subvalues.size(); i++)
            r.add(runs(v.subvalues[i]));
        return r.text();
    }

    // pieces of `per` bytes; after a head of `off` bytes
    inline Bytes pieces(Bytes const& t, size_t per)
    {
        Runs r;
        for (size_t i = 0; i < t.size(); i += per)
            r.add(bytes(t.substr(i, per)));
        return r.text();
    }
    inline Bytes chunks(Bytes const& t, size_t off, size_t per)
    {
        Runs r;
        r.add(bytes(t.substr(0, off)));
        for (size_t i = off; i < t.size(); i += per)
            r.add(bytes(t.substr(i, per)));
        return r.text();
    }

    void convProgram(Bytes& o, Op const& f);
}
