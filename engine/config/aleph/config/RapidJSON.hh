#ifndef ALEPH_CONFIG_RAPID_JSON_HH__
#define ALEPH_CONFIG_RAPID_JSON_HH__



#endif
