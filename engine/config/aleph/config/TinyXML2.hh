#ifndef ALEPH_CONFIG_TINY_XML2_HH__
#define ALEPH_CONFIG_TINY_XML2_HH__



#endif
