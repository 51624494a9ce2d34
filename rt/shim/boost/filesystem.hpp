// Model of boost::filesystem::path (version 3 semantics on POSIX) for symbolic execution; of the file system operations only
// those of the startup code exist, the harness decides what they find.
#pragma once
#include <string>
#include <vector>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <iosfwd>
#include <iterator>
#include <algorithm>
#include <functional>
#include <sstream>
extern "C" int h_fs_is_dir(const char *path, size_t len);
extern "C" int h_fs_mkdirs(const char *path, size_t len); // 1 created, 0 was there, -1 refused
namespace boost { namespace system { class error_code { int v = 0; public: void assign_(int x) { v = x; } explicit operator bool() const { return v != 0; } bool operator!() const { return v == 0; } int value() const { return v; } std::string message() const { return "error"; } void clear() { v = 0; } bool failed() const { return v != 0; } }; } }
namespace boost { namespace filesystem {
	class path
	{
		std::string s_;
		static std::size_t root_end(const std::string &s) { std::size_t i = 0; while (i < s.size() && s[i] == '/') i++; return i; }
	public:
		typedef char value_type; typedef std::string string_type;
		static constexpr char preferred_separator = '/', separator = '/', dot = '.';
		path() {}
		path(const std::string &s) : s_(s) {}
		path(const char *s) : s_(s) {}
		template <typename I> path(I a, I b) : s_(a, b) {}
		path &operator=(const std::string &s) { s_ = s; return *this; }
		path &operator=(const char *s) { s_ = s; return *this; }
		path &assign(const std::string &s) { s_ = s; return *this; }
		const std::string &string() const { return s_; }
		const std::string &native() const { return s_; }
		std::string generic_string() const { return s_; }
		operator std::string() const { return s_; }
		const char *c_str() const { return s_.c_str(); }
		std::size_t size() const { return s_.size(); }
		bool empty() const { return s_.empty(); }
		void clear() { s_.clear(); }
		void swap(path &o) { s_.swap(o.s_); }
		path filename() const
		{
			if (s_.empty()) return path();
			auto p = s_.rfind('/');
			if (p == std::string::npos) return path(s_);
			if (p + 1 < s_.size()) return path(s_.substr(p + 1));
			return root_end(s_) == s_.size() ? path("/") : path(".");
		}
		path parent_path() const
		{
			auto p = s_.rfind('/');
			if (p == std::string::npos || root_end(s_) == s_.size()) return path();
			while (p > 0 && s_[p - 1] == '/') p--;
			return p == 0 ? path("/") : path(s_.substr(0, p));
		}
		path branch_path() const { return parent_path(); }
		std::string leaf() const { return filename().s_; }
		path stem() const { path f = filename(); if (f.s_ == "." || f.s_ == "..") return f; auto p = f.s_.rfind('.'); return p == std::string::npos ? f : path(f.s_.substr(0, p)); }
		path extension() const { path f = filename(); if (f.s_ == "." || f.s_ == "..") return path(); auto p = f.s_.rfind('.'); return p == std::string::npos ? path() : path(f.s_.substr(p)); }
		path root_name() const { return path(); }
		path root_directory() const { return root_end(s_) ? path("/") : path(); }
		path root_path() const { return root_directory(); }
		path relative_path() const { return path(s_.substr(root_end(s_))); }
		bool has_root_path() const { return root_end(s_) > 0; }
		bool has_root_directory() const { return root_end(s_) > 0; }
		bool has_root_name() const { return false; }
		bool has_relative_path() const { return !relative_path().empty(); }
		bool has_parent_path() const { return !parent_path().empty(); }
		bool has_branch_path() const { return has_parent_path(); }
		bool has_leaf() const { return !s_.empty(); }
		bool has_filename() const { return !s_.empty(); }
		bool has_stem() const { return !stem().empty(); }
		bool has_extension() const { return !extension().empty(); }
		bool is_absolute() const { return root_end(s_) > 0; }
		bool is_relative() const { return !is_absolute(); }
		bool is_complete() const { return is_absolute(); }
		path &remove_filename() { s_ = parent_path().s_; return *this; }
		path &make_preferred() { return *this; }
		path &replace_extension(const path &e = path()) { s_.erase(s_.size() - extension().s_.size()); if (!e.empty()) { if (e.s_[0] != '.') s_ += '.'; s_ += e.s_; } return *this; }
		path &operator/=(const path &o) { if (!o.empty()) { if (!s_.empty() && s_.back() != '/' && o.s_[0] != '/') s_ += '/'; s_ += o.s_; } return *this; }
		path &append(const path &o) { return *this /= o; }
		path &operator+=(const path &o) { s_ += o.s_; return *this; }
		path &operator+=(char c) { s_ += c; return *this; }
		path &concat(const path &o) { return *this += o; }
		std::vector<path> parts() const
		{
			std::vector<path> r;
			std::size_t i = root_end(s_);
			if (i) r.push_back(path("/"));
			while (i < s_.size()) {
				auto e = s_.find('/', i);
				if (e == std::string::npos) { r.push_back(path(s_.substr(i))); break; }
				r.push_back(path(s_.substr(i, e - i)));
				while (e < s_.size() && s_[e] == '/') e++;
				if (e >= s_.size()) r.push_back(path("."));
				i = e;
			}
			return r;
		}
		struct iterator {
			typedef std::bidirectional_iterator_tag iterator_category; typedef path value_type; typedef std::ptrdiff_t difference_type; typedef const path *pointer; typedef const path &reference;
			std::vector<path> v; std::size_t i = 0;
			const path &operator*() const { return v[i]; }
			const path *operator->() const { return &v[i]; }
			iterator &operator++() { i++; return *this; }
			iterator &operator--() { i--; return *this; }
			bool operator==(const iterator &o) const { return i == o.i; }
			bool operator!=(const iterator &o) const { return i != o.i; }
		};
		typedef iterator const_iterator;
		iterator begin() const { iterator r; r.v = parts(); return r; }
		iterator end() const { iterator r; r.v = parts(); r.i = r.v.size(); return r; }
		int compare(const path &o) const { auto a = parts(), b = o.parts(); for (std::size_t i = 0; i < a.size() && i < b.size(); i++) { int c = a[i].s_.compare(b[i].s_); if (c) return c; } return a.size() < b.size() ? -1 : a.size() > b.size(); }
	};
	inline path operator/(const path &a, const path &b) { path r(a); r /= b; return r; }
	inline bool operator==(const path &a, const path &b) { return a.compare(b) == 0; }
	inline bool operator!=(const path &a, const path &b) { return a.compare(b) != 0; }
	inline bool operator<(const path &a, const path &b) { return a.compare(b) < 0; }
	template <typename C, typename T> inline std::basic_ostream<C, T> &operator<<(std::basic_ostream<C, T> &o, const path &p) { o.put('"'); for (char c : p.string()) { if (c == '"' || c == '&') o.put('&'); o.put(c); } o.put('"'); return o; }
	class filesystem_error : public std::runtime_error { public: filesystem_error() : std::runtime_error("filesystem error") {} explicit filesystem_error(const std::string &s) : std::runtime_error(s) {} };
	inline bool is_directory(const path &p) { return h_fs_is_dir(p.string().data(), p.string().size()) != 0; }
	inline bool is_directory(const path &p, system::error_code &e) { e.clear(); return is_directory(p); }
	inline bool exists(const path &p) { return is_directory(p); }
	inline bool exists(const path &p, system::error_code &e) { e.clear(); return exists(p); }
	// like boost's: an empty path is an error
	inline bool create_directories(const path &p, system::error_code &e) { int r = p.empty() ? -1 : h_fs_mkdirs(p.string().data(), p.string().size()); e.assign_(r < 0); return r > 0; }
	inline bool create_directories(const path &p) { system::error_code e; bool r = create_directories(p, e); if (e) throw filesystem_error("create_directories"); return r; }
	inline bool create_directory(const path &p, system::error_code &e) { return create_directories(p, e); }
	inline bool create_directory(const path &p) { return create_directories(p); }
} }
