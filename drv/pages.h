void pages_look(const char *path, unsigned pagesize, void (*o)(void *, const char *, long, long), void (*os)(void *, const char *), void *ctx);
void pages_forget(void);
