// Common part of the conformance drivers: hex input, JSON output, crash containment.
#pragma once

#include <memory>
#include <errno.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace vh
{
    using Bytes = std::string;

    inline int hexDigit(char c)
    {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'f')
            return c - 'a' + 10;
        return -1;
    }

    // "-" is the empty text
    inline Bytes unhex(Bytes const& s)
    {
        Bytes out;
        if (s == "-")
            return out;
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            out += static_cast<char>(hexDigit(s[i]) * 16 + hexDigit(s[i + 1]));
        return out;
    }

    // a text that ends where its heap block ends, at one alignment or another
    class Exact
    {
    public:
        explicit Exact(Bytes const& t) : m_pad(nextPad()), m_size(t.size()), m_block(new char[m_pad + m_size])
        {
            memset(m_block.get(), '#', m_pad);
            memcpy(get(), t.data(), m_size);
        }
        ~Exact()
        {
            if (m_block)
                memset(get(), '#', m_size);
        }
        Exact(Exact&&) = default;
        char* get() const { return m_block.get() + m_pad; }
        size_t size() const { return m_size; }

    private:
        static size_t nextPad()
        {
            static thread_local size_t n = 0;
            return static_cast<size_t>("01020704"[n++ % 8] - '0');
        }
        size_t m_pad;
        size_t m_size;
        std::unique_ptr<char[]> m_block;
    };

    inline std::vector<Bytes> split(Bytes const& line, char sep = ' ')
    {
        std::vector<Bytes> out;
        size_t start = 0;
        while (start <= line.size())
        {
            size_t end = line.find(sep, start);
            if (end == Bytes::npos)
                end = line.size();
            if (end > start)
                out.push_back(line.substr(start, end - start));
            start = end + 1;
        }
        return out;
    }

    inline std::vector<Bytes> readLines(char const* path)
    {
        std::vector<Bytes> out;
        FILE* f = fopen(path, "rb");
        if (!f)
        {
            fprintf(stderr, "cannot open %s\n", path);
            exit(3);
        }
        Bytes cur;
        char buf[65536];
        size_t n;
        while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
            for (size_t i = 0; i < n; i++)
            {
                if (buf[i] == '\n')
                {
                    out.push_back(cur);
                    cur.clear();
                }
                else
                    cur += buf[i];
            }
        if (!cur.empty())
            out.push_back(cur);
        fclose(f);
        return out;
    }

    // JSON array of byte codes
    inline void putBytes(Bytes& out, char const* data, size_t len)
    {
        out += '[';
        for (size_t i = 0; i < len; i++)
        {
            if (i)
                out += ',';
            unsigned v = static_cast<unsigned char>(data[i]);
            if (v >= 100)
                out += static_cast<char>('0' + v / 100);
            if (v >= 10)
                out += static_cast<char>('0' + v / 10 % 10);
            out += static_cast<char>('0' + v % 10);
        }
        out += ']';
    }
    inline void putBytes(Bytes& out, Bytes const& s)
    {
        putBytes(out, s.data(), s.size());
    }

    inline int g_out = 1;

    inline void writeAll(Bytes const& s)
    {
        size_t off = 0;
        while (off < s.size())
        {
            ssize_t n = write(g_out, s.data() + off, s.size() - off);
            if (n < 0)
            {
                if (errno == EINTR)
                    continue;
                _exit(4);
            }
            off += static_cast<size_t>(n);
        }
    }

    // Runs job(i) for every i in [0, n), in child processes.  A job that crashes, exits or hangs
    // (longer than `seconds`) is reported through failed(i, how) and the rest goes on in a new child.
    inline void runJobs(size_t n, unsigned seconds, std::function<void(size_t)> job, std::function<void(size_t, char const*)> failed)
    {
        volatile size_t* progress = static_cast<volatile size_t*>(mmap(nullptr, sizeof(size_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (progress == MAP_FAILED)
            exit(3);
        *progress = 0;
        size_t failures = 0;
        while (*progress < n)
        {
            pid_t pid = fork();
            if (pid < 0)
                exit(3);
            if (pid == 0)
            {
                struct rlimit nocore{0, 0};
                setrlimit(RLIMIT_CORE, &nocore);
                while (*progress < n)
                {
                    alarm(seconds);
                    job(*progress);
                    alarm(0);
                    *progress = *progress + 1;
                }
                _exit(0);
            }
            int status = 0;
            while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
                ;
            if (*progress < n)
            {
                char const* how = "crash";
                if (WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM)
                    how = "hang";
                else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
                {
                    fprintf(stderr, "job %zu was killed\n", static_cast<size_t>(*progress));
                    exit(5); // not the fault of the code under test
                }
                failed(*progress, how);
                *progress = *progress + 1;
                failures += how[0] == 'h' ? 17 : 1;
                if (failures > 50)
                    return; // plenty of evidence
            }
        }
    }
}
