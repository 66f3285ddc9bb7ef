// where the contracts find what configuration works on, by name
#include <cstddef>
#include "utils/Configuration.hpp"
typedef std::__detail::_Hash_node<std::pair<const std::string, std::string>, true> Node;
extern "C" std::size_t off_node_key() { return offsetof(Node, _M_storage) + offsetof(Config::Config::value_type, first); }
extern "C" std::size_t off_node_value() { return offsetof(Node, _M_storage) + offsetof(Config::Config::value_type, second); }
extern "C" std::size_t size_node() { return sizeof(Node); }
#define NODE(T, N) extern "C" std::size_t off_##N##_value() { typedef std::__detail::_Hash_node<std::pair<const std::string, T>, true> M; typedef std::pair<const std::string, T> P; return offsetof(M, _M_storage) + offsetof(P, second); }
NODE(int, int)
extern "C" std::size_t off_seq() { return offsetof(Config::Sequence, sequence_); }
extern "C" std::size_t size_seq() { return sizeof(Config::Sequence); }
extern "C" std::size_t off_lnode_value() { return offsetof(std::_List_node<const Config::Reader *>, _M_storage); }
extern "C" std::size_t off_file_name() { return offsetof(Config::File, filename_); }
extern "C" std::size_t off_envfile_key() { return offsetof(Config::EnvironmentFile, key_); }
extern "C" std::size_t off_envvar_env() { return offsetof(Config::EnvironmentVar, env_); }
extern "C" std::size_t off_envvar_key() { return offsetof(Config::EnvironmentVar, key_); }
extern "C" std::size_t size_reader() { return sizeof(Config::EnvironmentVar) + sizeof(Config::File); }
extern "C" std::size_t vt_process() { union { bool (Config::Reader::*m)(Config::Config &) const; std::size_t w; } x; x.m = &Config::Reader::process; return x.w - 1; }
extern "C" int cfg_found() { return Config::FOUND; }
extern "C" int cfg_not_found() { return Config::NOT_FOUND; }
extern "C" int cfg_error() { return Config::ERROR; }
// typed lookups under contract, whether or not this build uses them
template int Config::get_value<int>(const Config &, const std::string &, int &);
template int Config::get_value<unsigned int>(const Config &, const std::string &, unsigned int &);
template int Config::get_value<long>(const Config &, const std::string &, long &);
template int Config::get_value<std::size_t>(const Config &, const std::string &, std::size_t &);
template int Config::get_value<double>(const Config &, const std::string &, double &);
template int Config::get_value<float>(const Config &, const std::string &, float &);
template int Config::get_from_map<int>(const Config &, const std::string &, const std::unordered_map<std::string, int> &, int &);
#include "hxhim/private/hxhim.hpp"
extern "C" std::size_t size_hp() { return sizeof(hxhim_private); }
extern "C" std::size_t off_hx_p() { return offsetof(hxhim_t, p); }
