/* In-process driver: runs the real library code on requests read from standard
 * input and prints what it observes as JSON, one line per request that asks for
 * an answer.  Byte strings travel hex-encoded. */
#include "internals.h"
#include "irc.h"
#undef free
#undef malloc
#undef strdup
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <glib/gstdio.h>

/* the main program's, which is not part of this one */
__attribute__((weak)) void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static struct irc_network_state *st;
static struct linestack_context *ls;
static time_t fake_now;

/* A clock the workload sets, so that stored times can be checked. */
time_t time(time_t *t)
{
	time_t r = fake_now ? fake_now : 1700000000;
	if (t) *t = r;
	return r;
}


static char *unhex(const char *s)
{
	size_t n = strlen(s) / 2, i;
	char *r = g_malloc(n + 1);
	for (i = 0; i < n; i++) {
		unsigned int x;
		sscanf(s + 2 * i, "%2x", &x);
		r[i] = (char)x;
	}
	r[n] = 0;
	return r;
}

static void jstr(GString *o, const char *s)
{
	if (s == NULL) {
		g_string_append(o, "null");
		return;
	}
	g_string_append_c(o, '"');
	for (; *s; s++)
		g_string_append_printf(o, "%02x", (unsigned char)*s);
	g_string_append_c(o, '"');
}

static void jmodes(GString *o, irc_modes_t m)
{
	int i;
	g_string_append_c(o, '"');
	for (i = 0; i < MAXMODES; i++)
		if (m[i])
			g_string_append_printf(o, "%02x", i);
	g_string_append_c(o, '"');
}

static void jline(GString *o, const struct irc_line *l)
{
	size_t i;
	if (l == NULL) {
		g_string_append(o, "null");
		return;
	}
	g_string_append(o, "{\"o\":");
	jstr(o, l->origin);
	g_string_append(o, ",\"a\":[");
	for (i = 0; i < l->argc; i++) {
		if (i) g_string_append_c(o, ',');
		jstr(o, l->args[i]);
	}
	g_string_append_printf(o, "],\"nullterm\":%s}", l->args == NULL ? "null" : (l->args[l->argc] == NULL ? "true" : "false"));
}

static void jnick(GString *o, struct network_nick *n)
{
	g_string_append(o, "{\"nick\":"); jstr(o, n->nick);
	g_string_append(o, ",\"user\":"); jstr(o, n->username);
	g_string_append(o, ",\"host\":"); jstr(o, n->hostname);
	g_string_append(o, ",\"mask\":"); jstr(o, n->hostmask);
	g_string_append(o, ",\"real\":"); jstr(o, n->fullname);
	g_string_append(o, ",\"modes\":"); jmodes(o, n->modes);
	g_string_append_printf(o, ",\"query\":%d,\"nch\":%d}", n->query ? 1 : 0, g_list_length(n->channel_nicks));
}

static void jstate(GString *o, struct irc_network_state *s)
{
	GList *gl, *gl2;
	int i, first;
	int bad = 0;
	if (s == NULL) {
		g_string_append(o, "null");
		return;
	}
	g_string_append(o, "{\"me\":"); jnick(o, &s->me);
	g_string_append_printf(o, ",\"away\":%d,\"nicks\":[", s->is_away ? 1 : 0);
	for (gl = s->nicks; gl; gl = gl->next) {
		if (gl != s->nicks) g_string_append_c(o, ',');
		jnick(o, gl->data);
		for (gl2 = ((struct network_nick *)gl->data)->channel_nicks; gl2; gl2 = gl2->next) {
			struct channel_nick *cn = gl2->data;
			if (cn->global_nick != gl->data || !g_list_find(s->channels, cn->channel) || !g_list_find(cn->channel->nicks, cn)) bad++;
		}
	}
	for (gl2 = s->me.channel_nicks; gl2; gl2 = gl2->next) {
		struct channel_nick *cn = gl2->data;
		if (cn->global_nick != &s->me || !g_list_find(s->channels, cn->channel) || !g_list_find(cn->channel->nicks, cn)) bad++;
	}
	g_string_append(o, "],\"chans\":[");
	for (gl = s->channels; gl; gl = gl->next) {
		struct irc_channel_state *c = gl->data;
		if (gl != s->channels) g_string_append_c(o, ',');
		g_string_append(o, "{\"name\":"); jstr(o, c->name);
		g_string_append(o, ",\"topic\":"); jstr(o, c->topic);
		g_string_append(o, ",\"topic_by\":"); jstr(o, c->topic_set_by);
		g_string_append_printf(o, ",\"topic_time\":%ld,\"vis\":%d,\"created\":%ld,\"known\":%d", (long)c->topic_set_time, c->mode, (long)c->creation_time, c->mode_received ? 1 : 0);
		g_string_append_printf(o, ",\"netok\":%d", c->network == s);
		g_string_append(o, ",\"modes\":"); jmodes(o, c->modes);
		g_string_append(o, ",\"params\":{");
		for (i = 0, first = 1; i < MAXMODES; i++) if (c->chanmode_option[i]) {
			g_string_append_printf(o, "%s\"%02x\":", first ? "" : ",", i);
			jstr(o, c->chanmode_option[i]);
			first = 0;
		}
		g_string_append(o, "},\"lists\":{");
		for (i = 0, first = 1; i < MAXMODES; i++) if (c->chanmode_nicklist[i] || c->chanmode_nicklist_present[i]) {
			g_string_append_printf(o, "%s\"%02x\":{\"present\":%d,\"e\":[", first ? "" : ",", i, c->chanmode_nicklist_present[i] ? 1 : 0);
			for (gl2 = c->chanmode_nicklist[i]; gl2; gl2 = gl2->next) {
				struct nicklist_entry *e = gl2->data;
				if (gl2 != c->chanmode_nicklist[i]) g_string_append_c(o, ',');
				g_string_append_c(o, '['); jstr(o, e->hostmask); g_string_append_c(o, ','); jstr(o, e->by);
				g_string_append_printf(o, ",%ld]", (long)e->time_set);
			}
			g_string_append(o, "]}");
			first = 0;
		}
		g_string_append(o, "},\"members\":[");
		for (gl2 = c->nicks; gl2; gl2 = gl2->next) {
			struct channel_nick *cn = gl2->data;
			if (gl2 != c->nicks) g_string_append_c(o, ',');
			g_string_append_c(o, '['); jstr(o, cn->global_nick->nick); g_string_append_c(o, ',');
			jmodes(o, cn->modes);
			g_string_append_c(o, ']');
			if (cn->channel != c || !g_list_find(cn->global_nick->channel_nicks, cn) ||
				(cn->global_nick != &s->me && !g_list_find(s->nicks, cn->global_nick))) bad++;
		}
		g_string_append(o, "]}");
	}
	g_string_append_printf(o, "],\"bad\":%d}", bad);
}

static GString *tr_out;
static int tr_n;
static gboolean tr_cb(struct irc_line *l, time_t t, void *d)
{
	if (tr_n++) g_string_append_c(tr_out, ',');
	g_string_append_printf(tr_out, "[%ld,", (long)t);
	jline(tr_out, l);
	g_string_append_c(tr_out, ']');
	return TRUE;
}

static struct irc_network_info *info_for(const char *toks)
{
	struct irc_network_info *info = network_info_init();
	char **v = g_strsplit(toks, " ", 0);
	int i;
	for (i = 0; v[i]; i++)
		if (v[i][0]) network_info_parse(info, v[i]);
	g_strfreev(v);
	return info;
}

int main(int argc, char **argv)
{
	char *buf = NULL;
	size_t cap = 0;
	ssize_t n;
	struct irc_network_info *info = NULL;
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	while ((n = getline(&buf, &cap, stdin)) > 0) {
		char **a;
		int na;
		GString *o = g_string_new("");
		if (buf[n-1] == '\n') buf[n-1] = 0;
		a = g_strsplit(buf, " ", 0);
		na = g_strv_length(a);
#define ARG(i) ((i) < na ? unhex(a[i]) : g_strdup(""))
		if (!strcmp(a[0], "new")) {
			char *x = ARG(1), *y = ARG(2), *z = ARG(3);
			free_network_state(st);
			st = network_state_init(x, y, z);
			g_free(x); g_free(y); g_free(z);
		} else if (!strcmp(a[0], "feed")) {
			char *x = ARG(1);
			struct irc_line *l = irc_parse_line(x);
			if (l) {
				state_handle_data(st, l);
				/* as the proxy does: after the state was updated */
				if (ls) {
					gboolean r = linestack_insert_line(ls, l, FROM_SERVER, st);
					if (!r) g_string_append(o, "\"insertfail\"");
				}
			}
			free_line(l);
			g_free(x);
		} else if (!strcmp(a[0], "say")) {
			/* a line of our own */
			char *x = ARG(1);
			struct irc_line *l = irc_parse_line(x);
			if (l && ls) {
				gboolean r = linestack_insert_line(ls, l, TO_SERVER, st);
				if (!r) g_string_append(o, "\"insertfail\"");
			}
			free_line(l);
			g_free(x);
		} else if (!strcmp(a[0], "dump")) {
			jstate(o, st);
		} else if (!strcmp(a[0], "now")) {
			fake_now = atol(a[1]);
		} else if (!strcmp(a[0], "lsopen")) {
			char *x = ARG(1);
			if (ls) free_linestack_context(ls);
			ls = create_linestack(x, atoi(a[2]), st);
			g_string_append(o, ls ? "1" : "0");
			g_free(x);
		} else if (!strcmp(a[0], "lsclose")) {
			if (ls) free_linestack_context(ls);
			ls = NULL;
			free_network_state(st);
			st = NULL;
			g_string_append(o, "1");
		} else if (!strcmp(a[0], "lsmark")) {
			linestack_marker m = linestack_get_marker(ls);
			g_string_append_printf(o, "%" G_GUINT64_FORMAT, *m);
			linestack_free_marker(m);
		} else if (!strcmp(a[0], "lsget")) {
			/* from to object ("-" for none) */
			guint64 f = 0, t = 0;
			linestack_marker mf = NULL, mt = NULL;
			gboolean r;
			if (strcmp(a[1], "-")) { f = strtoull(a[1], NULL, 10); mf = &f; }
			if (strcmp(a[2], "-")) { t = strtoull(a[2], NULL, 10); mt = &t; }
			tr_out = o; tr_n = 0;
			g_string_append(o, "{\"l\":[");
			if (strcmp(a[3], "-")) {
				char *obj = unhex(a[3]);
				r = linestack_traverse_object(ls, obj, mf, mt, tr_cb, NULL);
				g_free(obj);
			} else
				r = linestack_traverse(ls, mf, mt, tr_cb, NULL);
			g_string_append_printf(o, "],\"r\":%d}", r);
		} else if (!strcmp(a[0], "lsstate")) {
			guint64 t = 0;
			linestack_marker mt = NULL;
			struct irc_network_state *s;
			if (strcmp(a[1], "-")) { t = strtoull(a[1], NULL, 10); mt = &t; }
			s = linestack_get_state(ls, mt);
			jstate(o, s);
			free_network_state(s);
		} else if (!strcmp(a[0], "parse")) {
			char *x = ARG(1);
			struct irc_line *l = irc_parse_line(x);
			char *nl;
			g_string_append(o, "{\"l\":");
			jline(o, l);
			if (l != NULL && l->args != NULL && l->argc > 0) {
				struct irc_line *l2, *l3;
				char *s;
				nl = irc_line_string_nl(l);
				s = irc_line_string(l);
				g_string_append(o, ",\"nl\":"); jstr(o, nl);
				g_string_append(o, ",\"s\":"); jstr(o, s);
				l2 = irc_parse_line(s);
				g_string_append(o, ",\"l2\":"); jline(o, l2);
				l3 = linedup(l);
				g_string_append(o, ",\"dup\":"); jline(o, l3);
				g_string_append_printf(o, ",\"cmp\":%d", irc_line_cmp(l, l3) != 0);
				if (l->origin) {
					char *nk = line_get_nick(l);
					g_string_append(o, ",\"nick\":"); jstr(o, nk);
					g_free(nk);
				}
				free_line(l2); free_line(l3);
				g_free(nl); g_free(s);
			}
			g_string_append(o, "}");
			free_line(l);
			g_free(x);
		} else if (!strcmp(a[0], "build")) {
			/* build a line from origin ("-": none) and arguments with line_add_arg, serialise, parse */
			char *org = strcmp(a[1], "-") ? unhex(a[1]) : NULL;
			char *c = unhex(a[2]);
			struct irc_line *l = irc_parse_line_args(org, c, NULL), *l2;
			int i;
			char *s;
			for (i = 3; i < na; i++) {
				char *x = unhex(a[i]);
				line_add_arg(l, x);
				g_free(x);
			}
			s = irc_line_string_nl(l);
			g_string_append(o, "{\"nl\":"); jstr(o, s);
			g_free(s);
			s = irc_line_string(l);
			l2 = irc_parse_line(s);
			g_string_append(o, ",\"l2\":"); jline(o, l2);
			g_string_append(o, "}");
			free_line(l); free_line(l2);
			g_free(s); g_free(c); g_free(org);
		} else if (!strcmp(a[0], "stream")) {
			/* a byte stream in chunks: read lines with irc_recv_line */
			int fds[2], i;
			GIOChannel *ch;
			gboolean first = TRUE, eof = FALSE;
			socketpair(AF_UNIX, SOCK_STREAM, 0, fds);
			ch = g_io_channel_unix_new(fds[0]);
			g_io_channel_set_close_on_unref(ch, TRUE);
			g_io_channel_set_encoding(ch, NULL, NULL);
			g_io_channel_set_flags(ch, G_IO_FLAG_NONBLOCK, NULL);
			g_string_append(o, "[");
			for (i = 1; i <= na && !eof; i++) {
				if (i < na) {
					char *x = unhex(a[i]);
					if (write(fds[1], x, strlen(a[i]) / 2) < 0) abort();
					g_free(x);
				} else
					close(fds[1]);
				for (;;) {
					struct irc_line *l = NULL;
					GError *e = NULL;
					GIOStatus s = irc_recv_line(ch, (GIConv)-1, &e, &l);
					if (s == G_IO_STATUS_NORMAL) {
						if (l != NULL) {
							if (!first) g_string_append_c(o, ',');
							first = FALSE;
							jline(o, l);
							free_line(l);
						}
						continue;
					}
					if (s == G_IO_STATUS_EOF) eof = TRUE;
					if (s == G_IO_STATUS_ERROR) {
						g_string_append_printf(o, "%s\"error\"", first ? "" : ",");
						first = FALSE;
						if (e) g_error_free(e);
						if (i == na) break;
						continue;
					}
					break;
				}
			}
			g_string_append(o, "]");
			g_io_channel_unref(ch);
		} else if (!strcmp(a[0], "info")) {
			char *x = ARG(1);
			if (info) free_network_info(info);
			info = info_for(x);
			g_free(x);
		} else if (!strcmp(a[0], "infostr")) {
			char *s = network_info_string(info);
			jstr(o, s);
			g_free(s);
		} else if (!strcmp(a[0], "cmp")) {
			char *x = ARG(1), *y = ARG(2);
			g_string_append_printf(o, "[%d,%d,%d]", irccmp(info, x, y), irccmp(info, y, x), irccmp(info, x, x));
			g_free(x); g_free(y);
		} else if (!strcmp(a[0], "ncmp")) {
			char *x = ARG(1), *y = ARG(2);
			g_string_append_printf(o, "%d", ircncmp(info, x, y, atoi(a[3])));
			g_free(x); g_free(y);
		} else if (!strcmp(a[0], "feat")) {
			/* what every character means */
			int i;
			g_string_append(o, "[");
			for (i = 1; i < 256; i++) {
				char nm[3] = { (char)i, 'x', 0 };
				if (i > 1) g_string_append_c(o, ',');
				g_string_append_printf(o, "[%d,%d,%d,%d,%d,%d]", is_channelname(nm, info) ? 1 : 0, is_prefix((char)i, info) ? 1 : 0,
					(unsigned char)get_prefix_by_mode((char)i, info), (unsigned char)get_mode_by_prefix((char)i, info),
					is_prefix_mode(info, (char)i) ? 1 : 0, (int)network_chanmode_type((char)i, info));
			}
			g_string_append(o, "]");
		} else if (!strcmp(a[0], "cmptab")) {
			/* which single characters are the same, for all pairs; in context */
			int i, j;
			g_string_append_c(o, '"');
			for (i = 1; i < 256; i++)
				for (j = 1; j < 256; j++) {
					char x[4] = { 'a', (char)i, 'Z', 0 }, y[4] = { 'A', (char)j, 'z', 0 };
					g_string_append_c(o, irccmp(info, x, y) == 0 ? '1' : '0');
				}
			g_string_append_c(o, '"');
		} else if (!strcmp(a[0], "pfx")) {
			irc_modes_t m;
			char *x = ARG(1);
			int i;
			modes_clear(m);
			for (i = 0; x[i]; i++)
				modes_set_mode(m, x[i]);
			g_string_append_printf(o, "%d", (unsigned char)get_prefix_from_modes(info, m));
			g_free(x);
		} else if (!strcmp(a[0], "quit")) {
			break;
		} else if (a[0][0]) {
			g_string_append(o, "\"?\"");
		}
		if (o->len) {
			fputs(o->str, stdout);
			fputc('\n', stdout);
		}
		if (!strcmp(a[0], "sync")) {
			fputs("\"sync\"\n", stdout);
		}
		fflush(stdout);
		g_string_free(o, TRUE);
		g_strfreev(a);
	}
	free_network_state(st);
	if (ls) free_linestack_context(ls);
	if (info) free_network_info(info);
	free(buf);
	return 0;
}
