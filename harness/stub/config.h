// Stand-in for the superproject's configure result.
#define HAVE_GETHOSTBYNAME2_R 1
