char rt_buffer[17];
int rt_used;
void rt_write(void);
void out(unsigned long x) {
	int n = 0;
	char d[17];
	do {
		d[n++] = "0123456789abcdef"[x % 16];
		x /= 16;
	} while (x);
	rt_used = 0;
	while (n)
		rt_buffer[rt_used++] = d[--n];
	rt_buffer[rt_used++] = '\n';
	rt_write();
}
