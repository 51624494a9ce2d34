// Construction of YAML documents: the model's nodes when executed symbolically, yaml-cpp's own when replayed natively.
#pragma once
#include "common.h"
#include <yaml-cpp/yaml.h>
#ifdef SYM_NATIVE
inline YAML::Node y_scalar(const str &s) { YAML::Node n(s); return n; }
inline void y_put(YAML::Node &m, const str &k, const YAML::Node &n) { m[k] = n; }
inline void y_push(YAML::Node &m, const YAML::Node &n) { m.push_back(n); }
#else
inline YAML::Node y_scalar(const str &s) { return YAML::Node(s); }
inline void y_put(YAML::Node &m, const str &k, const YAML::Node &n) { m.add(k, n); }
inline void y_push(YAML::Node &m, const YAML::Node &n) { m.push(n); }
#endif
inline YAML::Node y_map() { return YAML::Node(YAML::NodeType::Map); }
inline YAML::Node y_null() { return YAML::Node(YAML::NodeType::Null); }
inline YAML::Node y_seq() { YAML::Node n(YAML::NodeType::Sequence); return n; }
