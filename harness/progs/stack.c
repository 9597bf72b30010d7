/* Data nested argv[1] levels deep through all of the API, on a thread with a
 * stack of argv[2] bytes.  Prints one letter for each stage that came back. */
#include <cyaml/cyaml.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static size_t depth;
static cyaml_schema_value_t fixed = { .type = CYAML_SEQUENCE_FIXED, .flags = CYAML_FLAG_POINTER_NULL, .data_size = 8,
	.sequence = { .entry = &fixed, .min = 1, .max = 1 } };
static void say(const char *s) { if (write(1, s, 1) != 1) _exit(9); }
static void *body(void *arg)
{
	(void)arg;
	cyaml_config_t g = { .mem_fn = cyaml_mem, .log_level = CYAML_LOG_ERROR };
	const cyaml_schema_value_t *top = &fixed;
	char *t = malloc(depth * 2 + 8), *p = t, *out = NULL;
	size_t len = 0, n = 0;
	void *d = NULL, *c = NULL, *w;

	for (size_t i = 0; i < depth; i++) *p++ = '-', *p++ = ' ';
	if (cyaml_load_data((const uint8_t *)t, p - t, &g, top, (cyaml_data_t **)&d, NULL)) _exit(3);
	for (w = d; w; w = *(void **)w) n++;
	if (n != depth) _exit(4);
	say("L");
	if (cyaml_save_data(&out, &len, &g, top, d, 0)) _exit(5);
	say("S");
	if (cyaml_copy(&g, top, d, 1, (cyaml_data_t **)&c)) _exit(6);
	for (n = 0, w = c; w; w = *(void **)w) n++;
	if (n != depth) _exit(7);
	say("C");
	if (cyaml_free(&g, top, d, 0)) _exit(8);
	say("F");
	_exit(0);
	return NULL;
}
int main(int argc, char **argv)
{
	pthread_attr_t a;
	pthread_t th;
	(void)argc;
	depth = strtoul(argv[1], NULL, 0);
	alarm(60);
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, strtoul(argv[2], NULL, 0));
	pthread_create(&th, &a, body, NULL);
	pthread_join(th, NULL);
	return 0;
}
