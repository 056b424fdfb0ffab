static const unsigned char lib_lib_arm64_c[] = "\n";
static const unsigned int lib_lib_arm64_c_len = 1;
