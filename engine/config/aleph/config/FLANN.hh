#ifndef ALEPH_CONFIG_FLANN_HH__
#define ALEPH_CONFIG_FLANN_HH__



#endif
