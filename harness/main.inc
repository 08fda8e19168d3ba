int main(int c, char **v) { return mc::mc_main(c, v); }
