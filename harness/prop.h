// Included by all shards of the type universe; the build defines PROP_HEADER to select the property.
#include PROP_HEADER
