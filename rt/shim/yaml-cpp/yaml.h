// Model of the parts of yaml-cpp 0.8 that a configuration reader needs (node tree, type queries, conversions).
#pragma once
#include <cstddef>
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <chrono>
#include <sstream>
#include <iterator>
#include <list>
#include <set>
#include <algorithm>
namespace YAML
{
	struct Mark { int pos = -1, line = -1, column = -1; bool is_null() const { return true; } static const Mark null_mark() { return Mark(); } };
	class Exception : public std::runtime_error { public: YAML::Mark mark; std::string msg; Exception(const std::string &m) : std::runtime_error(m), msg(m) {} Exception(const YAML::Mark &, const std::string &m) : Exception(m) {} };
	class RepresentationException : public Exception { public: using Exception::Exception; };
	class InvalidNode : public RepresentationException { public: InvalidNode() : RepresentationException("invalid node; this may result from using a map iterator as a sequence iterator, or vice-versa") {} };
	class BadConversion : public RepresentationException { public: BadConversion() : RepresentationException("bad conversion") {} };
	template <typename T> class TypedBadConversion : public BadConversion {};
	class BadDereference : public RepresentationException { public: BadDereference() : RepresentationException("bad dereference") {} };
	class BadSubscript : public RepresentationException { public: BadSubscript() : RepresentationException("operator[] call on a scalar") {} };
	class BadPushback : public RepresentationException { public: BadPushback() : RepresentationException("appending to a non-sequence") {} };
	class BadInsert : public RepresentationException { public: BadInsert() : RepresentationException("inserting in a non-convertible-to-map") {} };
	class ParserException : public Exception { public: using Exception::Exception; };
	class BadFile : public Exception { public: BadFile() : Exception("bad file") {} };
	struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
	struct NodeImpl;
	struct NodeData {
		bool defined = true;
		NodeType::value type = NodeType::Null;
		std::string scalar;
		std::vector<std::pair<std::shared_ptr<NodeImpl>, std::shared_ptr<NodeImpl>>> map;
		std::vector<std::shared_ptr<NodeImpl>> seq;
	};
	struct NodeImpl { std::shared_ptr<NodeData> d = std::make_shared<NodeData>(); };
	namespace detail
	{
		template <typename T> inline bool parse_int(const std::string &s, T &out)
		{
			std::size_t i = 0;
			bool neg = false;
			if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
			if (neg && std::is_unsigned<T>::value) return false;
			unsigned base = 10;
			if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { base = 16; i += 2; }
			else if (i + 1 < s.size() && s[i] == '0') { base = 8; i++; }
			if (i >= s.size()) return false;
			unsigned long long r = 0, lim = (unsigned long long) std::numeric_limits<T>::max() + (neg ? 1 : 0);
			for (; i < s.size(); i++) {
				unsigned c = (unsigned char) s[i], d;
				if (c >= '0' && c <= '9') d = c - '0';
				else if (c >= 'a' && c <= 'f') d = c - 'a' + 10;
				else if (c >= 'A' && c <= 'F') d = c - 'A' + 10;
				else return false;
				if (d >= base) return false;
				if (r > lim / base || (r == lim / base && d > lim % base)) return false;
				r = r * base + d;
			}
			out = (T)(neg ? 0 - r : r);
			return true;
		}
	}
	template <typename T, typename = void> struct convert;
	class Node
	{
	public:
		mutable std::shared_ptr<NodeImpl> p; // none: null
		bool zombie = false;
		struct Zombie {};
		explicit Node(Zombie) : zombie(true) {}
		Node() {}
		explicit Node(std::shared_ptr<NodeImpl> x) : p(x) {}
		explicit Node(NodeType::value t) : p(std::make_shared<NodeImpl>()) { p->d->type = t; }
		explicit Node(const std::string &s) : p(std::make_shared<NodeImpl>()) { set_scalar(s); }
		explicit Node(const char *s) : Node(std::string(s)) {}
		template <typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> explicit Node(const T &v) : Node(std::is_same<T, bool>::value ? std::string(v ? "true" : "false") : std::to_string(v)) {}
		Node(const Node &) = default;
		void valid() const { if (zombie) throw InvalidNode(); }
		void ensure() const { valid(); if (!p) p = std::make_shared<NodeImpl>(); }
		NodeData &d() const { ensure(); return *p->d; }
		void set_scalar(const std::string &s) { d().type = NodeType::Scalar; d().scalar = s; d().defined = true; }
		Node &operator=(const Node &o)
		{
			if (is(o)) return *this;
			o.ensure();
			if (p) p->d = o.p->d;
			p = o.p;
			return *this;
		}
		Node &operator=(const std::string &s) { set_scalar(s); return *this; }
		Node &operator=(const char *s) { set_scalar(s); return *this; }
		template <typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> Node &operator=(const T &v) { return *this = Node(v).Scalar(); }
		void reset(const Node &o = Node()) { valid(); o.valid(); p = o.p; }
		bool is(const Node &o) const { valid(); o.valid(); return p && o.p && p->d == o.p->d; }
		YAML::Mark Mark() const { valid(); return YAML::Mark(); }
		NodeType::value Type() const { valid(); return !p ? NodeType::Null : p->d->defined ? p->d->type : NodeType::Undefined; }
		bool IsDefined() const { return !zombie && (!p || p->d->defined); }
		bool IsNull() const { return Type() == NodeType::Null; }
		bool IsScalar() const { return Type() == NodeType::Scalar; }
		bool IsSequence() const { return Type() == NodeType::Sequence; }
		bool IsMap() const { return Type() == NodeType::Map; }
		explicit operator bool() const { return IsDefined(); }
		bool operator!() const { return !IsDefined(); }
		static const std::string &none() { static const std::string s; return s; }
		const std::string &Scalar() const { valid(); return p ? p->d->scalar : none(); }
		const std::string &Tag() const { valid(); return none(); }
		std::size_t size() const
		{
			valid();
			if (!p || !p->d->defined) return 0;
			std::size_t n = 0;
			if (p->d->type == NodeType::Map) { for (auto &x : p->d->map) n += x.first->d->defined && x.second->d->defined; return n; }
			if (p->d->type == NodeType::Sequence) for (auto &x : p->d->seq) { if (!x->d->defined) break; n++; }
			return n;
		}
		static std::string keystr(const std::string &s) { return s; }
		static std::string keystr(const char *s) { return s; }
		static std::string keystr(const Node &n) { return n.Scalar(); }
		template <typename K, typename = typename std::enable_if<std::is_integral<K>::value>::type> static std::string keystr(const K &k) { return std::to_string(k); }
		template <typename K> static typename std::enable_if<std::is_unsigned<K>::value && !std::is_same<K, bool>::value, bool>::type index(const K &k, std::size_t &i) { i = k; return true; }
		template <typename K> static typename std::enable_if<std::is_integral<K>::value && std::is_signed<K>::value, bool>::type index(const K &k, std::size_t &i) { i = (std::size_t) k; return k >= 0; }
		template <typename K> static typename std::enable_if<!std::is_integral<K>::value || std::is_same<K, bool>::value, bool>::type index(const K &, std::size_t &) { return false; }
		template <typename K> const Node operator[](const K &key) const
		{
			std::size_t i = 0;
			NodeData &n = d();
			if (n.type == NodeType::Scalar) throw BadSubscript();
			if (n.type == NodeType::Sequence && index(key, i)) { if (i < n.seq.size()) return Node(n.seq[i]); return Node(Zombie()); }
			if (n.type == NodeType::Map) { std::string k(keystr(key)); for (auto &x : n.map) if (x.first->d->type == NodeType::Scalar && x.first->d->scalar == k) return Node(x.second); }
			return Node(Zombie());
		}
		template <typename K> Node operator[](const K &key)
		{
			std::size_t i = 0;
			NodeData &n = d();
			if (n.type == NodeType::Scalar) throw BadSubscript();
			if (n.type == NodeType::Sequence && index(key, i)) {
				if (i < n.seq.size()) return Node(n.seq[i]);
				if (i == n.seq.size()) { n.seq.push_back(std::make_shared<NodeImpl>()); n.seq.back()->d->defined = false; return Node(n.seq.back()); }
			}
			if (n.type != NodeType::Map) {
				n.map.clear();
				if (n.type == NodeType::Sequence) for (std::size_t k = 0; k < n.seq.size(); k++) n.map.push_back({Node(k).p, n.seq[k]});
				n.type = NodeType::Map;
			}
			std::string k(keystr(key));
			for (auto &x : n.map) if (x.first->d->type == NodeType::Scalar && x.first->d->scalar == k) return Node(x.second);
			auto v = std::make_shared<NodeImpl>();
			v->d->defined = false;
			n.map.push_back({Node(k).p, v});
			return Node(v);
		}
		template <typename K> bool remove(const K &key)
		{
			NodeData &n = d();
			std::string k(keystr(key));
			for (auto i = n.map.begin(); i != n.map.end(); ++i) if (i->first->d->scalar == k) { n.map.erase(i); return true; }
			return false;
		}
		void push_back(const Node &o)
		{
			o.ensure();
			NodeData &n = d();
			if (n.type == NodeType::Null || !n.defined) { n.type = NodeType::Sequence; n.defined = true; }
			if (n.type != NodeType::Sequence) throw BadPushback();
			n.seq.push_back(o.p);
		}
		template <typename T> void push_back(const T &v) { push_back(Node(v)); }
		template <typename T> T as() const
		{
			valid();
			T t;
			if (p && convert<T>::decode(*this, t)) return t;
			if (!p && std::is_same<T, std::string>::value) { convert<T>::decode(*this, t); return t; }
			throw TypedBadConversion<T>();
		}
		template <typename T, typename S> T as(const S &fallback) const
		{
			if (zombie || (!p && !std::is_same<T, std::string>::value)) return fallback;
			T t;
			if (convert<T>::decode(*this, t)) return t;
			return fallback;
		}
		struct iterator;
		typedef iterator const_iterator;
		iterator begin() const;
		iterator end() const;
		// construction helpers (harness)
		Node add(const std::string &k, const Node &n) { n.ensure(); d().type = NodeType::Map; d().map.push_back({Node(k).p, n.p}); return n; }
		Node push(const Node &n) { n.ensure(); d().type = NodeType::Sequence; d().seq.push_back(n.p); return n; }
	};
	struct iterator_value : public Node, public std::pair<Node, Node> {
		iterator_value(const Node &n) : Node(n), std::pair<Node, Node>(Node(Zombie()), Node(Zombie())) {}
		iterator_value(const Node &k, const Node &v) : Node(Zombie()), std::pair<Node, Node>(k, v) {}
	};
	struct Node::iterator {
		typedef std::forward_iterator_tag iterator_category; typedef iterator_value value_type; typedef std::ptrdiff_t difference_type; typedef iterator_value *pointer; typedef iterator_value reference;
		std::shared_ptr<NodeData> d;
		std::size_t i = 0;
		bool map() const { return d && d->type == NodeType::Map; }
		void skip() { if (map()) while (i < d->map.size() && !(d->map[i].first->d->defined && d->map[i].second->d->defined)) i++; }
		iterator_value operator*() const { return map() ? iterator_value(Node(d->map[i].first), Node(d->map[i].second)) : iterator_value(Node(d->seq[i])); }
		struct proxy { iterator_value v; iterator_value *operator->() { return &v; } };
		proxy operator->() const { return proxy{**this}; }
		iterator &operator++() { i++; skip(); return *this; }
		iterator operator++(int) { iterator r = *this; ++*this; return r; }
		bool operator==(const iterator &o) const { return d == o.d && i == o.i; }
		bool operator!=(const iterator &o) const { return !(*this == o); }
	};
	inline Node::iterator Node::begin() const { iterator r; if (!zombie && p) { r.d = p->d; r.skip(); } return r; }
	inline Node::iterator Node::end() const { iterator r; if (!zombie && p) { r.d = p->d; r.i = r.map() ? p->d->map.size() : p->d->seq.size(); } return r; }
	typedef Node::iterator iterator;
	typedef Node::iterator const_iterator;
	inline bool operator==(const Node &a, const Node &b) { return a.is(b); }
	inline void swap(Node &a, Node &b) { std::swap(a.p, b.p); std::swap(a.zombie, b.zombie); }
	inline Node Clone(const Node &n)
	{
		Node r(n.Type());
		r.p->d->scalar = n.Scalar();
		if (n.IsMap()) for (auto &x : n.p->d->map) r.p->d->map.push_back({Clone(Node(x.first)).p, Clone(Node(x.second)).p});
		if (n.IsSequence()) for (auto &x : n.p->d->seq) r.p->d->seq.push_back(Clone(Node(x)).p);
		return r;
	}
	template <> struct convert<std::string> { static bool decode(const Node &n, std::string &s) { if (n.IsNull()) { s = "null"; return true; } if (!n.IsScalar()) return false; s = n.Scalar(); return true; } };
	template <> struct convert<bool> { static bool decode(const Node &n, bool &b) { if (!n.IsScalar()) return false; auto &s = n.Scalar(); if (s == "true" || s == "yes" || s == "on") { b = true; return true; } if (s == "false" || s == "no" || s == "off") { b = false; return true; } return false; } };
	template <typename T> struct convert<T, typename std::enable_if<std::is_integral<T>::value && (sizeof(T) >= 2)>::type> { static bool decode(const Node &n, T &v) { return n.IsScalar() && detail::parse_int(n.Scalar(), v); } };
	template <> struct convert<signed char> { static bool decode(const Node &n, signed char &v) { int x; if (!n.IsScalar() || !detail::parse_int(n.Scalar(), x) || x < -128 || x > 127) return false; v = (signed char) x; return true; } };
	template <> struct convert<unsigned char> { static bool decode(const Node &n, unsigned char &v) { int x; if (!n.IsScalar() || !detail::parse_int(n.Scalar(), x) || x < 0 || x > 255) return false; v = (unsigned char) x; return true; } };
	template <> struct convert<char> { static bool decode(const Node &n, char &v) { if (!n.IsScalar() || n.Scalar().size() != 1) return false; v = n.Scalar()[0]; return true; } };
	template <> struct convert<Node> { static bool decode(const Node &n, Node &v) { v.reset(n); return true; } };
	template <typename T> struct convert<std::vector<T>> { static bool decode(const Node &n, std::vector<T> &v) { if (!n.IsSequence()) return false; v.clear(); for (auto &x : n.p->d->seq) v.push_back(Node(x).template as<T>()); return true; } };
	template <typename T> struct convert<std::list<T>> { static bool decode(const Node &n, std::list<T> &v) { if (!n.IsSequence()) return false; v.clear(); for (auto &x : n.p->d->seq) v.push_back(Node(x).template as<T>()); return true; } };
	template <typename K, typename T> struct convert<std::map<K, T>> { static bool decode(const Node &n, std::map<K, T> &v) { if (!n.IsMap()) return false; v.clear(); for (auto &x : n.p->d->map) if (x.second->d->defined) v[Node(x.first).template as<K>()] = Node(x.second).template as<T>(); return true; } };
	Node h_load_file(const std::string &); // decided by the harness
	inline Node LoadFile(const std::string &f) { return h_load_file(f); }
	inline Node Load(const std::string &) { throw ParserException("not modelled"); }
}
