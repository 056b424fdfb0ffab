/* TinyCC's runtime support is not needed by the system compiler */
static const unsigned char lib_libtcc1_c[] = "\n";
static const unsigned int lib_libtcc1_c_len = 1;
