void (*c25x_cb)(void);
__attribute__((destructor)) static void fini(void) {
    if (c25x_cb)
        c25x_cb();
}
