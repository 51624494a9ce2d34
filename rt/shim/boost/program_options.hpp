// Model of the part of boost::program_options a program uses to read its command line (unix style, guessing of long names).
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include <ostream>
namespace boost { namespace program_options {
	class error : public std::logic_error { public: explicit error(const std::string &m) : std::logic_error(m) {} };
	class unknown_option : public error { public: using error::error; };
	class ambiguous_option : public error { public: using error::error; };
	class invalid_command_line_syntax : public error { public: using error::error; };
	class multiple_occurrences : public error { public: using error::error; };
	class value_semantic { public: bool takes = false, has_default = false, switch_ = false; std::string def; std::string *target = nullptr; virtual ~value_semantic() {} };
	template <typename T> class typed_value;
	template <> class typed_value<std::string> : public value_semantic
	{
	public:
		typed_value() { takes = true; }
		typed_value *default_value(const std::string &s) { has_default = true; def = s; return this; }
		typed_value *value_name(const std::string &) { return this; }
	};
	template <typename T> inline typed_value<T> *value() { return new typed_value<T>(); }
	template <typename T> inline typed_value<T> *value(T *t) { auto *v = new typed_value<T>(); v->target = t; return v; }
	struct opt_ { std::string lname; char sname; std::shared_ptr<value_semantic> sem; };
	class options_description
	{
	public:
		std::vector<opt_> opts;
		options_description() {}
		explicit options_description(const std::string &) {}
		struct init {
			options_description *d;
			init &operator()(const char *name, const char *) { d->put(name, new value_semantic()); return *this; }
			init &operator()(const char *name, value_semantic *s) { d->put(name, s); return *this; }
			init &operator()(const char *name, value_semantic *s, const char *) { d->put(name, s); return *this; }
		};
		init add_options() { return {this}; }
		options_description &add(const options_description &o) { for (auto &x : o.opts) opts.push_back(x); return *this; }
		void put(const std::string &n, value_semantic *s) { auto p = n.find(','); opts.push_back({n.substr(0, p), p == std::string::npos ? '\0' : n[p + 1], std::shared_ptr<value_semantic>(s)}); }
	};
	inline std::ostream &operator<<(std::ostream &o, const options_description &) { return o; }
	struct found_ { const opt_ *o; std::string value; };
	struct parsed_options { std::vector<found_> v; std::shared_ptr<options_description> d; };
	class command_line_parser
	{
		std::vector<std::string> a_;
		std::shared_ptr<options_description> d_;
	public:
		explicit command_line_parser(const std::vector<std::string> &a) : a_(a) {}
		command_line_parser(int argc, const char *const argv[]) { for (int i = 1; i < argc; i++) a_.push_back(argv[i]); }
		command_line_parser &options(const options_description &d) { d_ = std::make_shared<options_description>(d); return *this; }
		parsed_options run()
		{
			parsed_options r;
			r.d = d_;
			for (std::size_t i = 0; i < a_.size(); i++) {
				const std::string &t = a_[i];
				if (t == "--") break; // the rest are positional
				if (t.size() >= 3 && t[0] == '-' && t[1] == '-') {
					auto eq = t.find('=');
					std::string n = t.substr(2, eq == std::string::npos ? std::string::npos : eq - 2);
					if (n.empty()) continue;
					const opt_ *hit = nullptr;
					int k = 0;
					for (auto &o : d_->opts) if (o.lname == n) { hit = &o; k = 1; }
					if (!hit) for (auto &o : d_->opts) if (o.lname.compare(0, n.size(), n) == 0) { hit = &o; k++; }
					if (k == 0) throw unknown_option("unrecognised option");
					if (k > 1) throw ambiguous_option("ambiguous option");
					take(r, hit, eq != std::string::npos, eq != std::string::npos ? t.substr(eq + 1) : std::string(), i);
				} else if (t.size() >= 2 && t[0] == '-') {
					for (std::size_t p = 1; p < t.size(); p++) {
						const opt_ *hit = nullptr;
						for (auto &o : d_->opts) if (o.sname == t[p]) hit = &o;
						if (!hit) throw unknown_option("unrecognised option");
						if (hit->sem->takes && p + 1 < t.size()) { r.v.push_back({hit, t.substr(p + 1)}); break; }
						take(r, hit, false, "", i);
						if (hit->sem->takes) break;
					}
				}
			}
			return r;
		}
	private:
		bool known(const std::string &t)
		{
			if (t.size() < 2 || t[0] != '-') return false;
			if (t[1] == '-') { std::string n = t.substr(2); for (auto &o : d_->opts) if (o.lname == n) return true; return false; }
			for (auto &o : d_->opts) if (o.sname == t[1]) return true;
			return false;
		}
		void take(parsed_options &r, const opt_ *o, bool adjacent, const std::string &v, std::size_t &i)
		{
			if (!o->sem->takes) { if (adjacent) throw invalid_command_line_syntax("option does not take any arguments"); r.v.push_back({o, ""}); return; }
			if (adjacent) { if (v.empty()) throw invalid_command_line_syntax("the argument should follow immediately after the equal sign"); r.v.push_back({o, v}); return; }
			if (i + 1 >= a_.size() || known(a_[i + 1])) throw invalid_command_line_syntax("the required argument is missing");
			r.v.push_back({o, a_[++i]});
		}
	};
	inline parsed_options parse_command_line(int argc, const char *const argv[], const options_description &d) { return command_line_parser(argc, argv).options(d).run(); }
	class variable_value
	{
	public:
		bool set = false, def = false;
		std::string v;
		template <typename T> const T &as() const { static_assert(std::is_same<T, std::string>::value, "not modelled"); return v; }
		bool empty() const { return !set; }
		bool defaulted() const { return def; }
	};
	class variables_map
	{
	public:
		std::vector<std::pair<std::string, variable_value>> m;
		std::vector<std::pair<std::string *, std::string>> out;
		std::size_t count(const std::string &n) const { for (auto &x : m) if (x.first == n) return 1; return 0; }
		const variable_value &operator[](const std::string &n) const { static const variable_value none; for (auto &x : m) if (x.first == n) return x.second; return none; }
		bool empty() const { return m.empty(); }
	};
	inline void store(const parsed_options &p, variables_map &vm)
	{
		for (auto &f : p.v) {
			if (vm.count(f.o->lname)) throw multiple_occurrences("option cannot be specified more than once");
			variable_value x;
			x.set = true; x.v = f.value;
			vm.m.push_back({f.o->lname, x});
			if (f.o->sem->target) vm.out.push_back({f.o->sem->target, f.value});
		}
		for (auto &o : p.d->opts) if (o.sem->has_default && !vm.count(o.lname)) {
			variable_value x;
			x.set = x.def = true; x.v = o.sem->def;
			vm.m.push_back({o.lname, x});
			if (o.sem->target) vm.out.push_back({o.sem->target, x.v});
		}
	}
	inline void notify(variables_map &vm) { for (auto &x : vm.out) *x.first = x.second; }
} }
