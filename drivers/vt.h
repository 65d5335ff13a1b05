// Shared driver support: JSON in/out, deterministic random numbers, counting allocator, counting logger.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <functional>
#include <utility>
#include <unistd.h>
#include <sanitizer/asan_interface.h>
#include "spvgentwo/Allocator.h"
#include "spvgentwo/Logger.h"
#include "spvgentwo/Reader.h"
#include "spvgentwo/Writer.h"

namespace vt
{
	// ---------------------------------------------------------------- random
	struct Rng
	{
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
		uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
		uint32_t u32() { return uint32_t(next() >> 32); }
		// [0, n[
		unsigned below(unsigned n) { return n == 0 ? 0 : unsigned((next() >> 33) % n); }
		unsigned range(unsigned a, unsigned b) { return a + below(b - a + 1); }
		bool chance(unsigned pct) { return below(100) < pct; }
		template <class V> auto& pick(V& v) { return v[below(unsigned(v.size()))]; }
	};

	// ---------------------------------------------------------------- JSON out
	inline std::string q(const std::string& s)
	{
		std::string r = "\"";
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += char(c);
		}
		return r + "\"";
	}
	inline std::string n(long long v) { return std::to_string(v); }
	inline std::string b(bool v) { return v ? "true" : "false"; }
	// a 32 bit word as <<hi, lo>>: TLC integers are 32 bit signed
	inline std::string w(uint32_t v) { return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffffu) + "]"; }
	inline std::string words(const std::vector<uint32_t>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += w(v[i]); } return r + "]"; }
	template <class T> std::string nums(const std::vector<T>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
	inline std::string arr(const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += v[i]; } return r + "]"; }
	// characters as a sequence of codes (TLA+ cannot look into strings)
	inline std::string codes(const std::string& s) { std::string r = "["; for (size_t i = 0; i < s.size(); ++i) { if (i) r += ","; r += std::to_string((unsigned char)s[i]); } return r + "]"; }

	struct Obj
	{
		std::string s = "{";
		Obj& raw(const char* k, const std::string& v) { if (s.size() > 1) s += ","; s += q(k) + ":" + v; return *this; }
		Obj& str(const char* k, const std::string& v) { return raw(k, q(v)); }
		Obj& num(const char* k, long long v) { return raw(k, n(v)); }
		Obj& flag(const char* k, bool v) { return raw(k, b(v)); }
		std::string done() const { return s + "}"; }
	};

	struct Sink
	{
		FILE* f = nullptr;
		explicit Sink(const char* p) { f = fopen(p, "w"); if (!f) { perror(p); exit(3); } }
		~Sink() { if (f) fclose(f); }
		void line(const std::string& s) { fwrite(s.data(), 1, s.size(), f); fputc('\n', f); }
		void flush() { fflush(f); }
	};

	// ---------------------------------------------------------------- JSON in
	struct J
	{
		enum K { Null, Bool, Num, Str, Arr, Object } k = Null;
		long long i = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
		const J& operator[](const char* key) const { for (auto& p : o) if (p.first == key) return p.second; static J none; return none; }
		const J& operator[](size_t x) const { static J none; return x < a.size() ? a[x] : none; }
		const J& operator[](int x) const { return (*this)[size_t(x)]; }
		const J& operator[](unsigned x) const { return (*this)[size_t(x)]; }
		size_t size() const { return a.size(); }
		bool has(const char* key) const { for (auto& p : o) if (p.first == key) return true; return false; }
	};
	struct JP
	{
		const char* p; const char* e;
		void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
		[[noreturn]] void bad() { fprintf(stderr, "bad json at ...%.40s\n", p); exit(3); }
		std::string str()
		{
			std::string r; ++p;
			while (p < e && *p != '"')
			{
				if (*p == '\\') { ++p; switch (*p) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'u': { r += char(strtol(std::string(p + 1, p + 5).c_str(), nullptr, 16)); p += 4; break; } default: r += *p; } ++p; }
				else r += *p++;
			}
			++p; return r;
		}
		J val()
		{
			ws(); J v; if (p >= e) bad();
			if (*p == '{') { v.k = J::Object; ++p; ws(); while (*p != '}') { ws(); std::string key = str(); ws(); if (*p != ':') bad(); ++p; v.o.emplace_back(key, val()); ws(); if (*p == ',') { ++p; ws(); } } ++p; }
			else if (*p == '[') { v.k = J::Arr; ++p; ws(); while (*p != ']') { v.a.push_back(val()); ws(); if (*p == ',') { ++p; ws(); } } ++p; }
			else if (*p == '"') { v.k = J::Str; v.s = str(); }
			else if (*p == 't') { v.k = J::Bool; v.i = 1; p += 4; }
			else if (*p == 'f') { v.k = J::Bool; p += 5; }
			else if (*p == 'n') { p += 4; }
			else if (*p == '-' || (*p >= '0' && *p <= '9')) { v.k = J::Num; char* end; v.i = strtoll(p, &end, 10); p = end; }
			else bad();
			return v;
		}
	};
	inline J parse(const std::string& t) { JP p{ t.data(), t.data() + t.size() }; return p.val(); }
	inline std::vector<std::string> readLines(const char* path)
	{
		std::vector<std::string> r; FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
		std::string cur; char buf[65536]; size_t k;
		while ((k = fread(buf, 1, sizeof buf, f)) > 0) for (size_t i = 0; i < k; ++i) { if (buf[i] == '\n') { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += buf[i]; }
		if (!cur.empty()) r.push_back(cur);
		fclose(f); return r;
	}

	// ---------------------------------------------------------------- logger
	struct Logger : public spvgentwo::ILogger
	{
		unsigned errors = 0, fatals = 0, warnings = 0, total = 0;
		std::string last, lastError;
		Logger() : spvgentwo::ILogger(&Logger::cb) {}
		static void cb(spvgentwo::ILogger* self, spvgentwo::LogLevel lvl, const char* fmt, ...)
		{
			Logger& l = *static_cast<Logger*>(self);
			char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
			l.last = buf; ++l.total;
			if (lvl == spvgentwo::LogLevel::Error) { ++l.errors; l.lastError = buf; }
			if (lvl == spvgentwo::LogLevel::Fatal) { ++l.fatals; ++l.errors; }
			if (lvl == spvgentwo::LogLevel::Warning) ++l.warnings;
			if (getenv("VT_LOG")) fprintf(stderr, "[log %u] %s\n", unsigned(lvl), buf);
		}
	};

	// ---------------------------------------------------------------- allocator
	struct Alloc : public spvgentwo::IAllocator
	{
		struct Ev { bool alloc; int id; size_t size; };
		std::unordered_map<void*, std::pair<size_t, int>> live;
		std::vector<Ev>* log = nullptr;
		int nextId = 1; unsigned bad = 0; size_t count = 0;
		bool reuse = false; std::map<size_t, std::vector<void*>> spare; // hand out the block returned last, like an arena would
		void* allocate(spvgentwo::sgt_size_t _bytes, unsigned int) override
		{
			void* p = nullptr; auto sp = reuse ? spare.find(_bytes) : spare.end();
			if (sp != spare.end() && !sp->second.empty()) { p = sp->second.back(); sp->second.pop_back(); ASAN_UNPOISON_MEMORY_REGION(p, _bytes); }
			else p = malloc(_bytes ? _bytes : 1); live[p] = { _bytes, nextId }; ++count;
			if (log) log->push_back({ true, nextId, _bytes });
			++nextId; return p;
		}
		void deallocate(void* p, spvgentwo::sgt_size_t _bytes) override
		{
			if (p == nullptr) { if (log) log->push_back({ false, 0, _bytes }); return; }
			auto it = live.find(p);
			if (it == live.end()) { ++bad; if (log) log->push_back({ false, -1, _bytes }); return; }
			if (_bytes != 0 && it->second.first != _bytes) ++bad;
			if (log) log->push_back({ false, it->second.second, _bytes });
			size_t sz = it->second.first; live.erase(it);
			if (reuse) { ASAN_POISON_MEMORY_REGION(p, sz); spare[sz].push_back(p); } else free(p);
		}
		~Alloc() override { for (auto& p : live) free(p.first); for (auto& b : spare) for (auto* p : b.second) { ASAN_UNPOISON_MEMORY_REGION(p, b.first); free(p); } }
	};

	// ---------------------------------------------------------------- words
	struct VecWriter : public spvgentwo::IWriter { std::vector<uint32_t> v; bool put(unsigned int x) override { v.push_back(x); return true; } };
	struct VecReader : public spvgentwo::IReader
	{
		const std::vector<uint32_t>& v; size_t pos = 0; explicit VecReader(const std::vector<uint32_t>& x) : v(x) {}
		bool get(unsigned int& x) override { if (pos >= v.size()) return false; x = v[pos++]; return true; }
	};

	// a session that does not finish is an observation, not a hang of the harness
	inline void onAlarm(int) { static const char m[] = "VT_TIMEOUT\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
	inline void watchdog(unsigned seconds) { signal(SIGALRM, onAlarm); alarm(seconds); }
}
