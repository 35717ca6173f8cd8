const char* engpar_version() { return "verif"; }
