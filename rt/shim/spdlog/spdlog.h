// Model of spdlog used for symbolic execution: messages are dropped, levels behave as in spdlog 1.12.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include <chrono>
#include <stdexcept>
// spdlog pulls these in transitively
#include <sstream>
#include <iterator>
#include <functional>
#include <mutex>
#include <atomic>
#include <cstring>
#include <unordered_map>
#include <list>
#include <algorithm>
extern "C" int sym_log_level;
namespace spdlog
{
	namespace level { enum level_enum : int { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6, n_levels }; }
	namespace sinks { class sink { public: virtual ~sink() = default; }; class null_sink_st : public sink {}; class null_sink_mt : public sink {};
		// what rotating log files were opened with
		struct rotating_record { std::string file; size_t size, files; };
		inline std::vector<rotating_record> &rotating_records() { static auto *v = new std::vector<rotating_record>(); return *v; }
		class rotating_file_sink_mt : public sink { public: rotating_file_sink_mt(const std::string &f, size_t size, size_t files) { rotating_records().push_back({f, size, files}); } };
		class rotating_file_sink_st : public rotating_file_sink_mt { public: using rotating_file_sink_mt::rotating_file_sink_mt; };
	}
	using sink_ptr = std::shared_ptr<sinks::sink>;
	class spdlog_ex : public std::exception { std::string m_; public: spdlog_ex() {} explicit spdlog_ex(const std::string &m) : m_(m) {} const char *what() const noexcept override { return m_.c_str(); } };
	enum class async_overflow_policy { block_retry, discard_log_msg };
	class logger
	{
		level::level_enum lev_ = (level::level_enum) sym_log_level;
		std::string name_;
	public:
		explicit logger(std::string n) : name_(n) {}
		logger(std::string n, sink_ptr) : name_(n) {}
		logger(std::string n, std::initializer_list<sink_ptr>) : name_(n) {}
		virtual ~logger() = default;
		template <typename F, typename... A> void trace(const F &, A &&...) {}
		template <typename F, typename... A> void debug(const F &, A &&...) {}
		template <typename F, typename... A> void info(const F &, A &&...) {}
		template <typename F, typename... A> void warn(const F &, A &&...) {}
		template <typename F, typename... A> void error(const F &, A &&...) {}
		template <typename F, typename... A> void critical(const F &, A &&...) {}
		template <typename F, typename... A> void log(level::level_enum, const F &, A &&...) {}
		bool should_log(level::level_enum l) const { return l >= lev_; }
		level::level_enum level() const { return lev_; }
		void set_level(level::level_enum l) { lev_ = l; }
		void set_pattern(std::string) {}
		void flush() {}
		void flush_on(level::level_enum) {}
		const std::string &name() const { return name_; }
	};
	// the registry of the 0.x interface, used by the startup code only
	inline std::vector<std::shared_ptr<logger>> &loggers_() { static auto *v = new std::vector<std::shared_ptr<logger>>(); return *v; }
	inline void set_async_mode(size_t n, async_overflow_policy = async_overflow_policy::block_retry, std::function<void()> = nullptr, std::chrono::milliseconds = std::chrono::milliseconds(0), std::function<void()> = nullptr) { if (n == 0 || (n & (n - 1))) throw spdlog_ex("Async queue size must be a power of 2"); }
	inline void set_sync_mode() {}
	inline std::shared_ptr<logger> get(const std::string &n) { for (auto &l : loggers_()) if (l->name() == n) return l; return nullptr; }
	inline void register_logger(std::shared_ptr<logger> l) { if (get(l->name())) throw spdlog_ex("logger with that name exists"); loggers_().push_back(l); }
	inline std::shared_ptr<logger> create(const std::string &n, sink_ptr s) { auto l = std::make_shared<logger>(n, s); register_logger(l); return l; }
	inline std::shared_ptr<logger> create(const std::string &n, std::initializer_list<sink_ptr> s) { auto l = std::make_shared<logger>(n, s); register_logger(l); return l; }
	inline std::shared_ptr<logger> rotating_logger_mt(const std::string &n, const std::string &f, size_t size, size_t files) { return create(n, std::make_shared<sinks::rotating_file_sink_mt>(f, size, files)); }
	inline void set_level(level::level_enum l) { for (auto &x : loggers_()) x->set_level(l); }
	inline void set_pattern(const std::string &) {}
	inline void drop(const std::string &) {}
	inline void drop_all() {}
}
