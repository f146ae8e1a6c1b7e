// said.h: collects what is written to a standard stream, also by several threads at once
// (the library writes to cout from several threads; a plain string buffer must not be shared like that)
#ifndef SAID_H_
#define SAID_H_
#include <mutex>
#include <streambuf>
#include <string>
struct Said : std::streambuf {
    std::string str() { std::lock_guard<std::mutex> g(m); return s; }
protected:
    int_type overflow(int_type c) override { if (!traits_type::eq_int_type(c, traits_type::eof())) { std::lock_guard<std::mutex> g(m); s.push_back(traits_type::to_char_type(c)); } return traits_type::not_eof(c); }
    std::streamsize xsputn(const char *t, std::streamsize n) override { std::lock_guard<std::mutex> g(m); s.append(t, n); return n; }
private:
    std::mutex m; std::string s;
};
#endif
