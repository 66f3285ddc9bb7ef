"""C18: later configuration sources override earlier ones."""
from engine.session import *
from engine.harness import Harness, full_sources, FULL_LIBS
from checks import conf
from checks.conf import *

SOURCES = conf.SOURCES
UNITS = [Unit("parse_kv_stream", u_parse), Unit("Sequence::process", u_sequence), Unit("Sequence::add", u_add), Unit("File::process", u_file), Unit("EnvironmentFile::process", u_envfile), Unit("EnvironmentVar::process", u_envvar)]
for t, n in (("int", "int"), ("unsigned int", "unsigned int"), ("long", "long"), ("unsigned long", "unsigned long"), ("double", "double"), ("float", "float")):
    UNITS.append(Unit("get_value<%s>" % n, u_get(t, "int Config::get_value<%s>(" % n)))
UNITS += [Unit("get_value bool", u_get("bool", BOOL)), Unit("get_value text", u_get_text), Unit("get_from_map", u_from_map)]
ULONG = "int Config::get_value<unsigned long>("
UNITS += [Unit("parse_value number", u_parse_value("bool parse_value<unsigned long,void>(", ULONG, I64)), Unit("parse_value text", u_parse_value("parse_value(", TEXT, None)),
          Unit("parse_map_value", u_parse_value("bool parse_map_value<int,void>(", "int Config::get_from_map<int>(", I32)), Unit("fill_options", u_fill), Unit("DefaultConfig::process", u_defaults), Unit("process_config_and_fill_options", u_process_and_fill), Unit("default_reader", u_default_reader)]
HARNESSES = [Harness("c18.cpp", full_sources(), FULL_LIBS, opt="-O0", san=["-fsanitize=address"], budget=8)]
