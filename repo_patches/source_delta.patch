From 3cbf6e0fb6ee9b31ac8fd7e736a0151e9a4acb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 01/88] fix: process input buffered before a transport is set
 up only afterwards

PASS, NICK and USER arriving in one segment were handled before the client
was attached to its network, leaving the client without a welcome.
---
 libirc/transport_ioc.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 76baedd..1889864 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -31,6 +31,7 @@ struct irc_transport_data_iochannel {
 	GIOChannel *incoming;
 	gboolean pending_disconnect;
 	gint incoming_id;
+	gint buffered_id;
 	gint outgoing_id;
 	GIConv incoming_iconv;
 	GIConv outgoing_iconv;
@@ -132,6 +133,8 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 	g_io_channel_unref(backend_data->incoming);
 
 	g_source_remove(backend_data->incoming_id);
+	if (backend_data->buffered_id)
+		g_source_remove(backend_data->buffered_id);
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
 
@@ -210,6 +213,18 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 
 }
 
+/* Process data that was already buffered before the transport was activated */
+static gboolean handle_transport_buffered(gpointer _transport)
+{
+	struct irc_transport *transport = _transport;
+	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+
+	backend_data->buffered_id = 0;
+	handle_transport_receive(backend_data->incoming, G_IO_IN, transport);
+
+	return FALSE;
+}
+
 static void irc_transport_iochannel_activate(struct irc_transport *transport)
 {
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
@@ -217,9 +232,11 @@ static void irc_transport_iochannel_activate(struct irc_transport *transport)
 							backend_data->incoming, G_IO_IN | G_IO_HUP,
 							handle_transport_receive, transport);
 
-	handle_transport_receive(backend_data->incoming,
-			  g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN,
-			  transport);
+	/* Don't call the handlers from here: the owner of the transport is
+	 * still being set up. */
+	if (g_io_channel_get_buffer_condition(backend_data->incoming) & G_IO_IN)
+		backend_data->buffered_id = g_idle_add_full(G_PRIORITY_DEFAULT,
+							handle_transport_buffered, transport, NULL);
 }
 
 
-- 
2.43.0


From 95a1a113ee25d80ab6c68e30034913190af3adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 02/88] fix: show own nick changes with the hostmask the client
 knows itself by

---
 src/client.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client.c b/src/client.c
index 3f7d920..f4dcf48 100644
--- a/src/client.c
+++ b/src/client.c
@@ -360,7 +360,11 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 
 	/* Replace lines "faked" to be from the user itself */
-	if (l->origin != NULL && line_from_nick(info, l, old->nick)) {
+	/* (by the time a change of the own nick gets here, the old nick is
+	 * already known under its new name) */
+	if (l->origin != NULL && (line_from_nick(info, l, old->nick) ||
+		(l->argc > 0 && !base_strcmp(l->args[0], "NICK") &&
+		 line_from_nick(info, l, new->nick)))) {
 		ret = linedup(l);
 		g_free(ret->origin);
 		ret->origin = g_strdup(new->hostmask);
-- 
2.43.0


From d81100f1236364b83888aa5d996be69e941b67eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 03/88] fix: keep time-stamped messages in one parameter

A message received without a colon before its text got a space added by
the time stamp and was then split in two; a message without text crashed.
---
 libirc/line.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index de65fa8..525f0ab 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -456,6 +456,9 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	char *tmp;
 	gboolean action = FALSE;
 
+	if (l->argc < 3)
+		return FALSE;
+
 	if (l->args[2][0] == '\001') { /* CTCP */
 		/* Let's not touch any CTCP requests but actions */
 		if (strncmp(l->args[2]+1, "ACTION", strlen("ACTION")) != 0) {
@@ -476,6 +479,10 @@ gboolean line_prefix_time(struct irc_line *l, time_t t)
 	g_free(l->args[2]);
 	l->args[2] = tmp;
 
+	/* The text now contains a space */
+	if (l->argc == 3)
+		l->has_endcolon = WITH_COLON;
+
 	return TRUE;
 }
 
-- 
2.43.0


From b064485cd4fa27e66961e9bf8b544f5b2e22e25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 04/88] fix: run signal actions from the main loop

Quitting and saving from inside a signal handler could deadlock or work on
half-updated data when the signal arrived at a bad moment.
---
 src/main.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 113da0e..ca97f4e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -22,6 +22,9 @@
 #endif
 #include "internals.h"
 #include <glib/gstdio.h>
+#if GLIB_CHECK_VERSION(2,30,0)
+#include <glib-unix.h>
+#endif
 
 #define BACKTRACE_STACK_SIZE 64
 
@@ -163,6 +166,21 @@ static void signal_save(int sig)
 	nickserv_save(my_global, my_global->config->config_dir);
 }
 
+#if GLIB_CHECK_VERSION(2,30,0)
+/* Called from the main loop, where (unlike in a signal handler) it is
+ * safe to do real work. */
+static gboolean main_loop_signal(gpointer _sig)
+{
+	switch (GPOINTER_TO_INT(_sig)) {
+	case SIGHUP: signal_hup(SIGHUP); break;
+	case SIGUSR1: signal_save(SIGUSR1); break;
+	default: signal_quit(GPOINTER_TO_INT(_sig)); break;
+	}
+
+	return TRUE;
+}
+#endif
+
 int main(int argc, char **argv)
 {
 	int isdaemon = 0;
@@ -311,7 +329,8 @@ int main(int argc, char **argv)
 		g_free(rcfile);
 	} else {
 		my_global = load_global(config_dir, from_sourcedir);
-		my_global->restricted = restricted;
+		if (my_global != NULL)
+			my_global->restricted = restricted;
 	}
 	g_free(config_dir);
 	g_free(tmp);
@@ -386,6 +405,13 @@ int main(int argc, char **argv)
 
 	atexit(clean_exit);
 
+#if GLIB_CHECK_VERSION(2,30,0)
+	g_unix_signal_add(SIGINT, main_loop_signal, GINT_TO_POINTER(SIGINT));
+	g_unix_signal_add(SIGTERM, main_loop_signal, GINT_TO_POINTER(SIGTERM));
+	g_unix_signal_add(SIGHUP, main_loop_signal, GINT_TO_POINTER(SIGHUP));
+	g_unix_signal_add(SIGUSR1, main_loop_signal, GINT_TO_POINTER(SIGUSR1));
+#endif
+
 	if (inetd_client) {
 		GIOChannel *io = g_io_channel_unix_new(0);
 		struct irc_network *n;
-- 
2.43.0


From 8e0083076269b23d08f8c70ea27769e468ebe810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 05/88] fix: survive malformed server messages in the state
 tracker

Names that cannot be nicks, topics for unknown channels, mode changes
without origin, truncated USERHOST replies, invalid hostmasks and mode
characters above 254 no longer abort or corrupt the tracked state.
---
 libirc/state.c | 81 +++++++++++++++++++++++++++++++++++---------------
 libirc/state.h |  2 +-
 2 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index e5088be..e52014c 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -113,7 +113,7 @@ gboolean network_nick_set_hostname(struct network_nick *n, const char *hostname)
 
 gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 {
-	char *t, *u;
+	const char *t, *u;
 
 	if (n == NULL)
 		return FALSE;
@@ -124,22 +124,24 @@ gboolean network_nick_set_hostmask(struct network_nick *n, const char *hm)
 	if (n->hostmask && !strcmp(n->hostmask, hm))
 		return TRUE;
 
-	g_free(n->hostmask);
-	g_free(n->nick); n->nick = NULL;
-	g_free(n->username); n->username = NULL;
-	g_free(n->hostname); n->hostname = NULL;
-	n->hostmask = g_strdup(hm);
-
 	t = strchr(hm, '!');
-	if (!t)
+	if (!t || t == hm)
 		return FALSE;
-	n->nick = g_strndup(hm, t-hm);
 
 	u = strchr(t, '@');
 	if (!u)
 		return FALSE;
+
+	g_free(n->hostmask);
+	n->hostmask = g_strdup(hm);
+
+	g_free(n->nick);
+	n->nick = g_strndup(hm, t-hm);
+
+	g_free(n->username);
 	n->username = g_strndup(t+1, u-t-1);
 
+	g_free(n->hostname);
 	n->hostname = g_strdup(u+1);
 
 	return TRUE;
@@ -380,7 +382,7 @@ struct network_nick *find_network_nick(struct irc_network_state *n,
  *
  * @param n Network state to search
  * @param name Name of the nick to search for
- * @return network_nick structure, or NULL if out of memory.
+ * @return network_nick structure, or NULL if the name is not a valid nick.
  */
 struct network_nick *find_add_network_nick(struct irc_network_state *n,
 										   const char *name)
@@ -394,10 +396,15 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
 	if (nd != NULL)
 		return nd;
 
+	/* Not something that can be a nick */
+	if (name[0] == '\0' || is_prefix(name[0], n->info)) {
+		network_state_log(LOG_WARNING, n, "Invalid nick `%s'", name);
+		return NULL;
+	}
+
 	/* create one, if it doesn't exist */
 	nd = g_new0(struct network_nick,1);
 	g_assert(nd != NULL);
-	g_assert(!is_prefix(name[0], n->info));
 	nd->nick = g_strdup(name);
 	nd->hops = -1;
 
@@ -410,18 +417,18 @@ struct network_nick *find_add_network_nick(struct irc_network_state *n,
  *
  * @param n Channel state to search
  * @param name Name of the nick to search for
- * @return channel_nick structure, or NULL if out of memory.
+ * @return channel_nick structure, or NULL if the name is not a valid nick.
  */
 struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 										   const char *name)
 {
 	struct channel_nick *n;
+	struct network_nick *nn;
 	const char *realname = name;
 	char prefix = 0;
 
 	g_assert(c);
 	g_assert(name);
-	g_assert(strlen(name) > 0);
 	g_assert(c->network);
 
 	if (is_prefix(realname[0], c->network->info)) {
@@ -433,11 +440,15 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 	if (n != NULL)
 		return n;
 
+	nn = find_add_network_nick(c->network, realname);
+	if (nn == NULL)
+		return NULL;
+
 	n = g_new0(struct channel_nick,1);
 	g_assert(n != NULL);
 
 	n->channel = c;
-	n->global_nick = find_add_network_nick(c->network, realname);
+	n->global_nick = nn;
 	if (prefix != 0) {
 		char mode = get_mode_by_prefix(prefix, c->network->info);
 		if (mode)
@@ -474,6 +485,8 @@ static void handle_join(struct irc_network_state *s, const struct irc_line *l)
 		c = find_add_channel(s, channels[i]);
 		g_assert(s->channels != NULL);
 		ni = find_add_channel_nick(c, nick);
+		if (ni == NULL)
+			continue;
 		network_nick_set_hostmask(ni->global_nick, l->origin);
 
 		/* The user is joining a channel */
@@ -611,6 +624,12 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 
 	CHECK_ORIGIN(s, l, "TOPIC");
 
+	if (c == NULL) {
+		network_state_log(LOG_WARNING, s,
+					"Can't set topic for unknown channel '%s'!", l->args[1]);
+		return;
+	}
+
 	if (c->topic != NULL) {
 		g_free(c->topic);
 	}
@@ -826,7 +845,8 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	char *fullname;
 
 	nn = find_add_network_nick(s, l->args[6]);
-	g_assert(nn != NULL);
+	if (nn == NULL)
+		return;
 	network_nick_set_data(nn, l->args[6], l->args[3], l->args[4]);
 
 	fullname = NULL;
@@ -1000,9 +1020,13 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 			return;
 		}
 
-		by_name = line_get_nick(l);
-		by = find_network_nick(s, by_name);
-		g_free(by_name);
+		if (l->origin != NULL) {
+			by_name = line_get_nick(l);
+			by = find_network_nick(s, by_name);
+			g_free(by_name);
+		} else {
+			by = NULL;
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
@@ -1023,7 +1047,13 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 		/* User modes */
 	} else {
-		struct network_nick *nn = find_add_network_nick(s, l->args[1]);
+		struct network_nick *nn = find_network_nick(s, l->args[1]);
+
+		if (nn == NULL) {
+			network_state_log(LOG_WARNING, s,
+				"Unable to change mode for unknown nick '%s'", l->args[1]);
+			return;
+		}
 
 		for(i = 0; l->args[2][i]; i++) {
 			switch(l->args[2][i]) {
@@ -1154,9 +1184,12 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 			struct network_nick *nn;
 			/* FIXME: Strip *'s from the end of tmp302[0]*/
 			nn = find_add_network_nick(s, tmp302[0]);
-			hm = g_strdup_printf("%s!%s", tmp302[0], tmp302[1]+1);
-			network_nick_set_hostmask(nn, hm);
-			g_free(hm);
+			/* Skip the away flag */
+			if (nn != NULL && tmp302[1][0] != '\0') {
+				hm = g_strdup_printf("%s!%s", tmp302[0], tmp302[1]+1);
+				network_nick_set_hostmask(nn, hm);
+				g_free(hm);
+			}
 		}
 		g_strfreev(tmp302);
 	}
@@ -1340,8 +1373,8 @@ gboolean string2mode(const char *modes, irc_modes_t ar)
 
 char *mode2string(irc_modes_t modes)
 {
-	char ret[256];
-	unsigned char i;
+	char ret[MAXMODES+1];
+	int i;
 	int pos = 0;
 	ret[0] = '\0';
 	for(i = 0; i < MAXMODES; i++) {
diff --git a/libirc/state.h b/libirc/state.h
index 496fd34..6196304 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -23,7 +23,7 @@
 #include "isupport.h"
 #include "log.h"
 
-#define MAXMODES 255
+#define MAXMODES 256
 typedef gboolean irc_modes_t[MAXMODES];
 
 /**
-- 
2.43.0


From 3aac2ee1d17d1850b6d62e41104dd0739cfbf550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 06/88] fix: understand names with more than one status prefix

---
 libirc/state.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index e52014c..9846fe4 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -313,7 +313,7 @@ struct channel_nick *find_channel_nick(struct irc_channel_state *c,
 	else
 		info = c->network->info;
 
-	if (is_prefix(realname[0], info))
+	while (is_prefix(realname[0], info))
 		realname++;
 
 	for (l = c->nicks; l; l = g_list_next(l)) {
@@ -425,16 +425,13 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 	struct channel_nick *n;
 	struct network_nick *nn;
 	const char *realname = name;
-	char prefix = 0;
 
 	g_assert(c);
 	g_assert(name);
 	g_assert(c->network);
 
-	if (is_prefix(realname[0], c->network->info)) {
-		prefix = realname[0];
+	while (is_prefix(realname[0], c->network->info))
 		realname++;
-	}
 
 	n = find_channel_nick(c, realname);
 	if (n != NULL)
@@ -449,11 +446,12 @@ struct channel_nick *find_add_channel_nick(struct irc_channel_state *c,
 
 	n->channel = c;
 	n->global_nick = nn;
-	if (prefix != 0) {
-		char mode = get_mode_by_prefix(prefix, c->network->info);
+	/* There can be more than one prefix (NAMESX) */
+	for (; name < realname; name++) {
+		char mode = get_mode_by_prefix(*name, c->network->info);
 		if (mode)
 			modes_set_mode(n->modes, mode);
-    }
+	}
 	c->nicks = g_list_append(c->nicks, n);
 	n->global_nick->channel_nicks = g_list_append(n->global_nick->channel_nicks, n);
 	return n;
-- 
2.43.0


From d44caa9fc5915b0f714e663680ac4b5d6a78de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 07/88] fix: keep mode parameters aligned when a key or unknown
 nick is involved

Unsetting a mode that always has a parameter consumes that parameter, and a
status change of an unknown nick no longer discards the remaining modes.
---
 libirc/state.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 9846fe4..83bd213 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -959,13 +959,16 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = g_strdup(opt_arg);
+			modes_set_mode(c->modes, mode);
 
 			return 1;
 		} else {
 			g_free(channel_mode_option(c, mode));
 			channel_mode_option(c, mode) = NULL;
+			modes_unset_mode(c->modes, mode);
 
-			return 0;
+			/* Only "settings" also have a parameter when being unset */
+			return (cmt == CHANMODE_SETTING && opt_arg != NULL)?1:0;
 		}
 	} else if (is_prefix_mode(info, mode)) {
 		struct channel_nick *n;
@@ -978,7 +981,7 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		n = find_channel_nick(c, opt_arg);
 		if (!n) {
 			network_state_log(LOG_WARNING, s, "Can't set mode %c%c on nick %s on channel %s, because nick does not exist!", set?'+':'-', mode, opt_arg, c->name);
-			return -1;
+			return 1;
 		}
 		if (set) {
 			modes_set_mode(n->modes, mode);
-- 
2.43.0


From bdb093e444867634d3ed052ef9f4c01fa98c7fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:27 +0000
Subject: [PATCH 08/88] fix: use the right parameters of 221, 331 and 333
 replies

---
 libirc/state.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 83bd213..f296bb0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -670,7 +670,7 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_no_topic(struct irc_network_state *s, const struct irc_line *l)
 {
-	struct irc_channel_state *c = find_channel(s, l->args[1]);
+	struct irc_channel_state *c = find_channel(s, l->args[2]);
 
 	if (c == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -680,6 +680,9 @@ static void handle_no_topic(struct irc_network_state *s, const struct irc_line *
 
 	g_free(c->topic);
 	c->topic = NULL;
+	g_free(c->topic_set_by);
+	c->topic_set_by = NULL;
+	c->topic_set_time = 0;
 }
 
 static void handle_namreply(struct irc_network_state *s, const struct irc_line *l)
@@ -1130,9 +1133,9 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l)
 {
-	if (!string2mode(l->args[1], s->me.modes)) {
+	if (!string2mode(l->args[2], s->me.modes)) {
 		network_state_log(LOG_WARNING, s,
-						  "Invalid MODE change %s for user", l->args[1]);
+						  "Invalid MODE change %s for user", l->args[2]);
 	}
 }
 
@@ -1216,13 +1219,13 @@ static struct irc_command {
 	{ "001", 1, handle_001 },
 	{ "004", 5, handle_004 },
 	{ "005", 3, handle_005 },
-	{ "221", 1, handle_umodeis },
+	{ "221", 2, handle_umodeis },
 	{ "302", 2, handle_302 },
 	{ "324", 3, handle_324 },
 	{ "329", 3, handle_329 },
 	{ "332", 3, handle_332 },
-	{ "333", 3, handle_333 },
-	{ "331", 1, handle_no_topic },
+	{ "333", 4, handle_333 },
+	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
 	{ "367", 2, handle_banlist_entry },
-- 
2.43.0


From 07de6e49a1b1c0e3c5396e21ed3ffee8a7992316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 09/88] fix: track and report the parameters of channel modes
 completely

324 replies carry the key and limit too, and a channel without modes is
still answered with a 324 reply when MODE is answered from the cache.
---
 libirc/client.c | 49 +++++++++++++++++++++++++------------------------
 libirc/state.c  | 20 ++++++++++++++++++++
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index 78d2c86..bb6d207 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -828,34 +828,35 @@ gboolean client_send_banlist(struct irc_client *client, struct irc_channel_state
 gboolean client_send_channel_mode(struct irc_client *c, struct irc_channel_state *ch)
 {
 	char *mode;
-	mode = mode2string(ch->modes);
 	gboolean ret;
+	struct irc_line *l;
+	int i, j = 0;
 
-	if (mode != NULL) {
-		struct irc_line *l;
-		int i, j = 0;
-		l = g_new0(struct irc_line, 1);
-		l->args = g_new0(char *, 260);
-		l->origin = g_strdup(c->default_origin);
-		l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
-		l->args[1] = g_strdup(client_get_default_target(c));
-		l->args[2] = g_strdup(ch->name);
-		l->args[3] = mode;
-		for (i = 0; mode[i]; i++) {
-			if (network_chanmode_type(mode[i], c->state->info) == CHANMODE_OPT_SETTING &&
-				channel_mode_option(ch, mode[i])) {
-				l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
-				j++;
-			}
-			l->args[4+j] = NULL;
-		}
-		l->argc = 4+j;
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
-		if (!ret) {
-			return FALSE;
+	mode = mode2string(ch->modes);
+	if (mode == NULL) {
+		mode = g_strdup("+");
+	}
+
+	l = g_new0(struct irc_line, 1);
+	l->args = g_new0(char *, 4+MAXMODES+1);
+	l->origin = g_strdup(c->default_origin);
+	l->args[0] = g_strdup_printf("%03d", RPL_CHANNELMODEIS);
+	l->args[1] = g_strdup(client_get_default_target(c));
+	l->args[2] = g_strdup(ch->name);
+	l->args[3] = mode;
+	for (i = 0; mode[i]; i++) {
+		if (channel_mode_option(ch, mode[i])) {
+			l->args[4+j] = g_strdup(channel_mode_option(ch, mode[i]));
+			j++;
 		}
 	}
+	l->args[4+j] = NULL;
+	l->argc = 4+j;
+	ret = client_send_line(c, l, NULL);
+	free_line(l);
+	if (!ret) {
+		return FALSE;
+	}
 
 	if (ch->creation_time > 0) {
 		char time[20];
diff --git a/libirc/state.c b/libirc/state.c
index f296bb0..287c0ad 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1142,6 +1142,9 @@ static void handle_umodeis(struct irc_network_state *s, const struct irc_line *l
 static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *ch = find_channel(s, l->args[2]);
+	const char *m;
+	int arg = 4;
+	int i;
 
 	if (ch == NULL) {
 		network_state_log(LOG_WARNING, s,
@@ -1154,6 +1157,23 @@ static void handle_324(struct irc_network_state *s, const struct irc_line *l)
 						  "Invalid MODE change %s for channel %s", l->args[3], l->args[2]);
 	}
 
+	for (i = 0; i < MAXMODES; i++) {
+		if (!ch->modes[i]) {
+			g_free(ch->chanmode_option[i]);
+			ch->chanmode_option[i] = NULL;
+		}
+	}
+
+	for (m = l->args[3]; *m && l->args[arg] != NULL; m++) {
+		enum chanmode_type cmt = network_chanmode_type(*m, s->info);
+
+		if (cmt == CHANMODE_SETTING || cmt == CHANMODE_OPT_SETTING) {
+			g_free(channel_mode_option(ch, *m));
+			channel_mode_option(ch, *m) = g_strdup(l->args[arg]);
+			arg++;
+		}
+	}
+
 	ch->mode_received = TRUE;
 }
 
-- 
2.43.0


From c1c03046b2295fc7736161a39bc307bca97b0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 10/88] fix: forget a nick's previous owner when somebody else
 takes the nick

Otherwise two entries with the same name existed and later events were
applied to the wrong one.
---
 libirc/state.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libirc/state.c b/libirc/state.c
index 287c0ad..e6858c0 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1127,6 +1127,13 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 	g_free(nick);
 
 	if (nn != NULL) {
+		struct network_nick *old = find_network_nick(s, l->args[1]);
+
+		/* The server just gave this name to somebody else, so whoever was
+		 * known by it before is gone. */
+		if (old != NULL && old != nn && old != &s->me)
+			free_network_nick(s, old);
+
 		network_nick_set_nick(nn, l->args[1]);
 	}
 }
-- 
2.43.0


From 578f25ed152062de6251808785d136fba7dd842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 11/88] fix: check the number of parameters before hiding the
 own hostmask

Short 302, 352, 311 and 314 replies were read past their end, and 302
replies lost trailing spaces in the message passed on.
---
 libirc/state.c |  2 +-
 src/client.c   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index e6858c0..6cbd16e 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1200,7 +1200,7 @@ static void handle_329(struct irc_network_state *s, const struct irc_line *l)
 static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 {
 	int i;
-	gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+	gchar **users = g_strsplit(l->args[2], " ", 0);
 	if (users == NULL) {
 		network_state_log(LOG_ERROR, s, "Unable to split user list (%s)",
 						  l->args[2]);
diff --git a/src/client.c b/src/client.c
index f4dcf48..5eda168 100644
--- a/src/client.c
+++ b/src/client.c
@@ -372,12 +372,12 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 	}
 	switch (irc_line_respcode(l)) {
 		case RPL_USERHOST:
-		if (strstr(l->args[2], old->hostname)) {
+		if (l->argc >= 3 && strstr(l->args[2], old->hostname)) {
 			int i;
-			gchar **users = g_strsplit(g_strstrip(l->args[2]), " ", 0);
+			gchar **users = g_strsplit(l->args[2], " ", 0);
 			for (i = 0; users[i]; i++) {
 				gchar** tmp302 = g_strsplit(users[i], "=", 2);
-				if (g_strv_length(tmp302) > 1) {
+				if (g_strv_length(tmp302) > 1 && tmp302[1][0] != '\0') {
 					/* FIXME: strip *'s from the end of tmp302[0] */
 					if (!irccmp(info, tmp302[0], old->nick)) {
 						g_free(users[i]);
@@ -396,7 +396,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		}
 		break;
 		case RPL_WHOREPLY:
-		if (l->argc >= 6) {
+		if (l->argc >= 7) {
 			if (!irccmp(info, l->args[6], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
@@ -409,7 +409,7 @@ struct irc_line *irc_line_replace_hostmask(const struct irc_line *l,
 		break;
 		case RPL_WHOISUSER:
 		case RPL_WHOWASUSER:
-		if (l->argc >= 4) {
+		if (l->argc >= 5) {
 			if (!irccmp(info, l->args[2], old->nick)) {
 				ret = linedup(l);
 				g_free(ret->args[4]);
-- 
2.43.0


From d5da6cec51b309eb2a3c476de796f04d0d9a6b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 12/88] fix: nick corner cases and leaks in the state tracker

Operators in 302 replies are not a different nick, 001 updates the whole
own hostmask, invalid new nicks are ignored, and repeated 004 and 333
replies no longer leak.
---
 libirc/state.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index 6cbd16e..ec246d3 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -664,7 +664,8 @@ static void handle_333(struct irc_network_state *s, const struct irc_line *l)
 		return;
 	}
 
-	c->topic_set_time = strtol(l->args[4], NULL, 0);
+	c->topic_set_time = strtol(l->args[4], NULL, 10);
+	g_free(c->topic_set_by);
 	c->topic_set_by = g_strdup(l->args[3]);
 }
 
@@ -1084,14 +1085,16 @@ static void handle_mode(struct irc_network_state *s, const struct irc_line *l)
 
 static void handle_001(struct irc_network_state *s, const struct irc_line *l)
 {
-	g_free(s->me.nick);
-	s->me.nick = g_strdup(l->args[1]);
+	network_nick_set_nick(&s->me, l->args[1]);
 }
 
 static void handle_004(struct irc_network_state *s, const struct irc_line *l)
 {
+	g_free(s->info->supported_user_modes);
 	s->info->supported_user_modes = g_strdup(l->args[4]);
+	g_free(s->info->supported_channel_modes);
 	s->info->supported_channel_modes = g_strdup(l->args[5]);
+	g_free(s->info->server);
 	s->info->server = g_strdup(l->args[2]);
 }
 
@@ -1126,7 +1129,8 @@ static void handle_nick(struct irc_network_state *s, const struct irc_line *l)
 	nn = find_add_network_nick(s, nick);
 	g_free(nick);
 
-	if (nn != NULL) {
+	if (nn != NULL && l->args[1][0] != '\0' &&
+		!is_prefix(l->args[1][0], s->info)) {
 		struct network_nick *old = find_network_nick(s, l->args[1]);
 
 		/* The server just gave this name to somebody else, so whoever was
@@ -1213,7 +1217,9 @@ static void handle_302(struct irc_network_state *s, const struct irc_line *l)
 		if (g_strv_length(tmp302) > 1) {
 			char *hm;
 			struct network_nick *nn;
-			/* FIXME: Strip *'s from the end of tmp302[0]*/
+			/* Operators are marked with a * */
+			if (g_str_has_suffix(tmp302[0], "*"))
+				tmp302[0][strlen(tmp302[0])-1] = '\0';
 			nn = find_add_network_nick(s, tmp302[0]);
 			/* Skip the away flag */
 			if (nn != NULL && tmp302[1][0] != '\0') {
@@ -1337,6 +1343,8 @@ void free_network_state(struct irc_network_state *state)
 	g_free(state->me.username);
 	g_free(state->me.hostname);
 	g_free(state->me.hostmask);
+	g_free(state->me.fullname);
+	g_free(state->me.server);
 
 	while (state->nicks != NULL)
 	{
-- 
2.43.0


From e3008f043edd77a7fb3efb951d3fb7a859918b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:08 +0000
Subject: [PATCH 13/88] fix: compare no more than the given number of
 characters

---
 libirc/util.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libirc/util.c b/libirc/util.c
index b139315..675cfa1 100644
--- a/libirc/util.c
+++ b/libirc/util.c
@@ -48,9 +48,9 @@ int base_strncmp(const char *a, const char *b, size_t n)
 
 static inline int str_cmphelper(const char *a, const char *b, size_t len, char sh, char sl, char eh, char el)
 {
-	int i;
+	size_t i;
 	char h,l;
-	for (i = 0; a[i] && b[i] && i < len; i++) {
+	for (i = 0; i < len && a[i] && b[i]; i++) {
 		if (a[i] == b[i]) {
 			continue;
 		}
@@ -64,6 +64,9 @@ static inline int str_cmphelper(const char *a, const char *b, size_t len, char s
 			break;
 	}
 
+	if (i == len)
+		return 0;
+
 	return a[i]-b[i];
 }
 
-- 
2.43.0


From 569a2c962210ac1dea01c91b14bf1c137ecf9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 14/88] fix: survive malformed and valueless ISUPPORT tokens

---
 libirc/isupport.c | 120 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 83 insertions(+), 37 deletions(-)

diff --git a/libirc/isupport.c b/libirc/isupport.c
index b4656a8..c7a6cc3 100644
--- a/libirc/isupport.c
+++ b/libirc/isupport.c
@@ -311,15 +311,15 @@ char *network_info_string(struct irc_network_info *info)
 		char elist[100];
 		strcpy(elist, "");
 		if (info->elist_mask_search)
-			strncat(elist, "M", sizeof(elist));
+			strcat(elist, "M");
 		if (info->elist_inverse_mask_search)
-			strncat(elist, "N", sizeof(elist));
+			strcat(elist, "N");
 		if (info->elist_usercount_search)
-			strncat(elist, "U", sizeof(elist));
+			strcat(elist, "U");
 		if (info->elist_creation_time_search)
-			strncat(elist, "C", sizeof(elist));
+			strcat(elist, "C");
 		if (info->elist_topic_search)
-			strncat(elist, "T", sizeof(elist));
+			strcat(elist, "T");
 		fs = g_list_append(fs, g_strdup_printf("ELIST=%s", elist));
 	}
 
@@ -380,6 +380,38 @@ static void check_chanmodes_inconsistency(struct irc_network_info *info)
 }
 
 
+/**
+ * Number in the value of an ISUPPORT token, or 0 (no limit) if there is none.
+ */
+static int isupport_number(const char *val)
+{
+	if (val == NULL)
+		return 0;
+	return atoi(val);
+}
+
+/**
+ * Check whether the value of a PREFIX token is either empty (no channel
+ * member prefixes at all) or a list of modes, followed by a list of just
+ * as many prefixes.
+ */
+static gboolean valid_prefix(const char *val)
+{
+	const char *end;
+
+	if (val == NULL)
+		return FALSE;
+
+	if (val[0] == '\0')
+		return TRUE;
+
+	end = strchr(val, ')');
+	if (val[0] != '(' || end == NULL)
+		return FALSE;
+
+	return strlen(end+1) == (size_t)(end - (val+1));
+}
+
 void network_info_parse(struct irc_network_info *info, const char *parameter)
 {
 	char *sep;
@@ -396,7 +428,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	}
 
 	if (!base_strcmp(key, "CASEMAPPING")) {
-		if (!base_strcmp(val, "rfc1459")) {
+		if (val == NULL || !base_strcmp(val, "rfc1459")) {
 			info->casemapping = CASEMAP_RFC1459;
 		} else if (!base_strcmp(val, "strict-rfc1459")) {
 			info->casemapping = CASEMAP_STRICT_RFC1459;
@@ -414,37 +446,37 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->ircd);
 		info->ircd = g_strdup(val);
 	} else if (!base_strcmp(key, "NICKLEN") || !base_strcmp(key, "MAXNICKLEN")) {
-		info->nicklen = atoi(val);
+		info->nicklen = isupport_number(val);
 	} else if (!base_strcmp(key, "USERLEN")) {
-		info->userlen = atoi(val);
+		info->userlen = isupport_number(val);
 	} else if (!base_strcmp(key, "HOSTLEN")) {
-		info->hostlen = atoi(val);
+		info->hostlen = isupport_number(val);
 	} else if (!base_strcmp(key, "OVERRIDE")) {
 		info->operoverride = TRUE;
 	} else if (!base_strcmp(key, "CHANNELLEN") || !base_strcmp(key, "MAXCHANNELLEN")) {
-		info->channellen = atoi(val);
+		info->channellen = isupport_number(val);
 	} else if (!base_strcmp(key, "AWAYLEN")) {
-		info->awaylen = atoi(val);
+		info->awaylen = isupport_number(val);
 	} else if (!base_strcmp(key, "KICKLEN")) {
-		info->kicklen = atoi(val);
+		info->kicklen = isupport_number(val);
 	} else if (!base_strcmp(key, "TOPICLEN")) {
-		info->topiclen = atoi(val);
+		info->topiclen = isupport_number(val);
 	} else if (!base_strcmp(key, "WATCH")) {
-		info->watch = atoi(val);
+		info->watch = isupport_number(val);
 	} else if (!base_strcmp(key, "VBANLIST")) {
 		info->vbanlist = TRUE;
 	} else if (!base_strcmp(key, "MAXPARA")) {
-		info->maxpara = atoi(val);
+		info->maxpara = isupport_number(val);
 	} else if (!base_strcmp(key, "MAXCHANNELS")) {
-		info->maxchannels = atoi(val);
+		info->maxchannels = isupport_number(val);
 	} else if (!base_strcmp(key, "MAXTARGETS")) {
-		info->maxtargets = atoi(val);
+		info->maxtargets = isupport_number(val);
 	} else if (!base_strcmp(key, "REMOVE")) {
 		info->remove = TRUE;
 	} else if (!base_strcmp(key, "MAXBANS")) {
-		info->maxbans = atoi(val);
+		info->maxbans = isupport_number(val);
 	} else if (!base_strcmp(key, "MODES")) {
-		info->maxmodes = atoi(val);
+		info->maxmodes = isupport_number(val);
 	} else if (!base_strcmp(key, "WALLCHOPS")) {
 		info->wallchops = TRUE;
 	} else if (!base_strcmp(key, "MAP")) {
@@ -486,24 +518,25 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 	} else if (!base_strcmp(key, "UHNAMES")) {
 		info->uhnames = TRUE;
 	} else if (!base_strcmp(key, "KEYLEN")) {
-		info->keylen = atoi(val);
+		info->keylen = isupport_number(val);
 	} else if (!base_strcmp(key, "SILENCE")) {
 		if (val) {
-			info->silence_limit = atoi(val);
+			info->silence_limit = isupport_number(val);
 			info->silence = TRUE;
 		} else
 			info->silence = TRUE;
 	} else if (!base_strcmp(key, "CHANTYPES")) {
 		g_free(info->chantypes);
-		info->chantypes = g_strdup(val);
+		info->chantypes = g_strdup(val != NULL?val:"");
 	} else if (!base_strcmp(key, "CHANMODES")) {
-		g_strfreev(info->chanmodes);
-		info->chanmodes_a = info->chanmodes_b =
-			info->chanmodes_c = info->chanmodes_d = NULL;
-		info->chanmodes = g_strsplit(val, ",", 4);
-		if (g_strv_length(info->chanmodes) != 4) {
-			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(info->chanmodes));
+		/* Servers can add further types, of which nothing is known */
+		char **parts = g_strsplit(val != NULL?val:"", ",", 0);
+		if (g_strv_length(parts) < 4) {
+			network_info_log(LOG_WARNING, info, "Expected 4-tuple for CHANMODES, received tuple was of size %d", g_strv_length(parts));
+			g_strfreev(parts);
 		} else {
+			g_strfreev(info->chanmodes);
+			info->chanmodes = parts;
 			info->chanmodes_a = info->chanmodes[0];
 			info->chanmodes_b = info->chanmodes[1];
 			info->chanmodes_c = info->chanmodes[2];
@@ -532,7 +565,7 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->invex_mode = val[0];
 	} else if (!base_strcmp(key, "ELIST")) {
 		int i;
-		for (i = 0; val[i]; i++) {
+		for (i = 0; val != NULL && val[i]; i++) {
 			switch (val[i]) {
 			case 'M': info->elist_mask_search = TRUE; break;
 			case 'N': info->elist_inverse_mask_search = TRUE; break;
@@ -561,9 +594,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 			info->extban_supported = g_strdup("cqr");
 		} else {
 			char **parts = g_strsplit(val, ",", 2);
-			info->extban_prefix = parts[0];
-			info->extban_supported = parts[1];
-			g_free(parts);
+			info->extban_prefix = g_strdup(parts[0] != NULL?parts[0]:"");
+			info->extban_supported = g_strdup((parts[0] != NULL && parts[1] != NULL)?parts[1]:"");
+			g_strfreev(parts);
 		}
 	} else if (!base_strcmp(key, "MAXLIST")) {
 		g_free(info->maxlist);
@@ -575,9 +608,9 @@ void network_info_parse(struct irc_network_info *info, const char *parameter)
 		g_free(info->statusmsg);
 		info->statusmsg = g_strdup(val);
 	} else if (!base_strcmp(key, "PREFIX")) {
-		if (strlen(val) > 0 && (val[0] != '(' || !strchr(val, ')'))) {
+		if (!valid_prefix(val)) {
 			network_info_log(LOG_WARNING, info,
-							 "Malformed PREFIX data `%s'", val);
+							 "Malformed PREFIX data `%s'", val != NULL?val:"");
 		} else {
 			g_free(info->prefix);
 			info->prefix = g_strdup(val);
@@ -648,7 +681,7 @@ gboolean is_channelname(const char *name, const struct irc_network_info *n)
 
 	g_assert(name != NULL);
 
-	if (strchr(n->chantypes, name[0]))
+	if (name[0] != '\0' && strchr(n->chantypes, name[0]))
 		return TRUE;
 
 	return FALSE;
@@ -682,13 +715,13 @@ const char *get_charset(const struct irc_network_info *n)
 
 gboolean is_channel_mode(struct irc_network_info *info, char mode)
 {
-	return (info->supported_channel_modes != NULL &&
+	return (mode != '\0' && info->supported_channel_modes != NULL &&
 		    strchr(info->supported_channel_modes, mode) != NULL);
 }
 
 gboolean is_user_mode(struct irc_network_info *info, char mode)
 {
-	return (info->supported_user_modes != NULL &&
+	return (mode != '\0' && info->supported_user_modes != NULL &&
 		    strchr(info->supported_user_modes, mode) != NULL);
 }
 
@@ -702,6 +735,9 @@ char get_prefix_from_modes(struct irc_network_info *info, irc_modes_t modes)
 
 	prefix = info->prefix;
 
+	if (prefix[0] == '\0')
+		return 0;
+
 	pref_end = strchr(prefix, ')');
 	if (prefix[0] != '(' || !pref_end) {
 		network_info_log(LOG_WARNING, info,
@@ -728,6 +764,9 @@ char get_mode_by_prefix(char prefix, const struct irc_network_info *n)
 
 	prefix_mapping = n->prefix;
 
+	if (prefix_mapping[0] == '\0')
+		return 0;
+
 	pref_end = strchr(prefix_mapping, ')');
 	if (prefix_mapping[0] != '(' || !pref_end) {
 		network_info_log(LOG_WARNING, n,
@@ -754,6 +793,9 @@ char get_prefix_by_mode(char mode, const struct irc_network_info *n)
 
 	prefix = n->prefix;
 
+	if (prefix[0] == '\0')
+		return ' ';
+
 	pref_end = strchr(prefix, ')');
 	if (prefix[0] != '(' || !pref_end) {
 		network_info_log(LOG_WARNING, n,
@@ -776,6 +818,10 @@ const static char *default_chanmodes[] = {
 enum chanmode_type network_chanmode_type(char m, struct irc_network_info *n)
 {
 	int i;
+
+	if (m == '\0')
+		return CHANMODE_UNKNOWN;
+
 	for (i = 0; i < 4; i++) {
 		if (strchr((n && n->chanmodes)?n->chanmodes[i]:default_chanmodes[i], m)) {
 			return i+1;
-- 
2.43.0


From 856f9a54fba5c4020875d69312c3aaaad7d00f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 15/88] fix: parse lines with repeated spaces or without a
 message properly

---
 libirc/line.c | 77 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 35 deletions(-)

diff --git a/libirc/line.c b/libirc/line.c
index 525f0ab..5174d7e 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -89,9 +89,9 @@ struct irc_line *virc_parse_line( const char *hostmask, va_list ap)
 struct irc_line * irc_parse_line(const char *d)
 {
 	char *p;
-	char dosplit = 1;
 	size_t estimate = 0;
-	char *data = g_strdup(d);
+	/* The message ends at the end of the line */
+	char *data = g_strndup(d, strcspn(d, "\r\n"));
 	int i;
 	struct irc_line *l;
 
@@ -105,37 +105,40 @@ struct irc_line * irc_parse_line(const char *d)
 		if (!p){ g_free(data); g_free(l); return NULL; }
 		*p = '\0';
 		l->origin = g_strdup(data+1);
-		for(; *(p+1) == ' '; p++);
 		p++;
+		while (*p == ' ')
+			p++;
 	}
 
 	for(i = 0; p[i]; i++) if (p[i] == ' ')estimate++;
 
-	l->args = g_new(char *, estimate+2);
+	l->args = g_new(char *, estimate+3);
 
-	l->args[0] = p;
+	/* There always is a command, even if it is empty */
+	i = strcspn(p, " ");
+	l->args[l->argc++] = g_strndup(p, i);
+	p += i;
 
-	for (; *p; p++) {
-		if (*p == ' ' && dosplit) {
-			*p = '\0';
-			l->argc++;
-			l->args[l->argc] = p+1;
-			if (*(p+1) == ':'){
-				l->has_endcolon = WITH_COLON;
-				dosplit = 0;
-				l->args[l->argc]++;
-			}
-		}
+	while (TRUE) {
+		/* Parameters are separated by one or more spaces */
+		while (*p == ' ')
+			p++;
 
-		if (*p == '\r' || *p == '\n') {
-			*p = '\0';
+		if (*p == '\0')
+			break;
+
+		if (*p == ':') {
+			l->has_endcolon = WITH_COLON;
+			l->args[l->argc++] = g_strdup(p+1);
 			break;
 		}
+
+		i = strcspn(p, " ");
+		l->args[l->argc++] = g_strndup(p, i);
+		p += i;
 	}
 
-	l->argc++;
 	l->args[l->argc] = NULL;
-	for(i = 0; l->args[i]; i++) l->args[i] = g_strdup(l->args[i]);
 	g_free(data);
 
 	return l;
@@ -389,27 +392,31 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 
 	g_assert(c);
 
-	status = g_io_channel_read_line(c, &raw, &in_len, NULL, error);
-	if (status != G_IO_STATUS_NORMAL) {
-		g_free(raw);
-		return status;
-	}
+	do {
+		status = g_io_channel_read_line(c, &raw, &in_len, NULL, error);
+		if (status != G_IO_STATUS_NORMAL) {
+			g_free(raw);
+			return status;
+		}
 
-	if (iconv == (GIConv)-1) {
-		cvrt = raw;
-	} else {
-		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
-		if (cvrt == NULL) {
+		if (iconv == (GIConv)-1) {
 			cvrt = raw;
-			status = G_IO_STATUS_ERROR;
 		} else {
-			g_free(raw);
+			cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+			if (cvrt == NULL) {
+				cvrt = raw;
+				status = G_IO_STATUS_ERROR;
+			} else {
+				g_free(raw);
+			}
 		}
-	}
 
-	*l = irc_parse_line(cvrt);
+		*l = irc_parse_line(cvrt);
 
-	g_free(cvrt);
+		g_free(cvrt);
+
+		/* Skip anything that isn't a message */
+	} while (*l == NULL && status == G_IO_STATUS_NORMAL);
 
 	return status;
 }
-- 
2.43.0


From bedfac5dcbb8c5aa14b534cccf2d09467358554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 16/88] fix: always write parameters so that they can be
 recognized again

---
 libirc/line.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 5174d7e..c0baf5a 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -197,8 +197,15 @@ char *irc_line_string_nl(const struct irc_line *l)
 static gboolean requires_colon(const struct irc_line *l)
 {
 	int c;
+	const char *last;
 
 	g_assert(l);
+	g_assert(l->argc > 0);
+
+	/* Some parameters can't be recognized without a colon */
+	last = l->args[l->argc-1];
+	if (last[0] == '\0' || last[0] == ':' || strchr(last, ' ') != NULL)
+		return TRUE;
 
 	if (l->has_endcolon == WITH_COLON)
 		return TRUE;
@@ -282,6 +289,9 @@ char *irc_line_string(const struct irc_line *l)
 			strcat(ret, " ");
 	}
 
+	/* A message is always a single line */
+	g_strdelimit(ret, "\r\n", ' ');
+
 	return ret;
 }
 
-- 
2.43.0


From b53ab12c4726be244805016def74eb7242224a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 17/88] fix: send the names of a channel as a single parameter

---
 libirc/client.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index bb6d207..64764fe 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -722,13 +722,19 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 {
 	GList *nl;
 	gboolean ret;
-	struct irc_line *l = NULL;
+	GString *names = NULL;
+	char mode[2] = { ch->mode?ch->mode:'=', 0 };
+	size_t room;
 
 	g_assert(c != NULL);
 	g_assert(ch != NULL);
 
+	/* Room for names, next to ":<origin> 353 <nick> <mode> <channel> :\r\n" */
+	room = strlen(c->default_origin) + strlen(client_get_default_target(c)) +
+		strlen(ch->name) + 14;
+	room = (room < IRC_MAXLINELEN)?IRC_MAXLINELEN - room:0;
+
 	for (nl = ch->nicks; nl; nl = nl->next) {
-		char mode[2] = { ch->mode, 0 };
 		char *arg;
 		struct channel_nick *n = (struct channel_nick *)nl->data;
 		char prefix;
@@ -748,32 +754,31 @@ gboolean client_send_nameslist(struct irc_client *c, struct irc_channel_state *c
 
 		ret = TRUE;
 
-		if (l == NULL || !line_add_arg(l, arg)) {
-			char *tmp;
-			if (l != NULL) {
-				ret = client_send_line(c, l, NULL);
-				free_line(l);
-			}
+		if (names != NULL && names->len + 1 + strlen(arg) > room) {
+			ret = client_send_response(c, RPL_NAMREPLY, mode, ch->name,
+									   names->str, NULL);
+			g_string_free(names, TRUE);
+			names = NULL;
+		}
 
-			l = irc_parse_line_args(c->default_origin, "353",
-						client_get_default_target(c),
-						mode, ch->name, NULL);
-			l->has_endcolon = WITHOUT_COLON;
-			tmp = g_strdup_printf(":%s", arg);
-			g_assert(line_add_arg(l, tmp));
-			g_free(tmp);
+		if (names == NULL) {
+			names = g_string_new(arg);
+		} else {
+			g_string_append_printf(names, " %s", arg);
 		}
 
 		g_free(arg);
 
 		if (!ret) {
+			g_string_free(names, TRUE);
 			return FALSE;
 		}
 	}
 
-	if (l != NULL) {
-		ret = client_send_line(c, l, NULL);
-		free_line(l);
+	if (names != NULL) {
+		ret = client_send_response(c, RPL_NAMREPLY, mode, ch->name,
+								   names->str, NULL);
+		g_string_free(names, TRUE);
 		if (!ret) {
 			return FALSE;
 		}
-- 
2.43.0


From 6726448d35b9f1868623929816bcb4d4e66d8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 18/88] fix: name the nick when telling a client about its user
 modes

---
 libirc/client.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 64764fe..fdbeda8 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -656,7 +656,8 @@ gboolean client_send_state(struct irc_client *c, struct irc_network_state *state
 
 	mode = mode2string(state->me.modes);
 	if (mode != NULL) {
-		ret = client_send_args_ex(c, state->me.nick, "MODE", mode, NULL);
+		ret = client_send_args_ex(c, state->me.nick, "MODE", state->me.nick,
+								  mode, NULL);
 	}
 	g_free(mode);
 
-- 
2.43.0


From f5c8ed8f18fd5980784f6d74efc18900adc32f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 19/88] fix: write lines completely and survive closing a
 transport with output pending

---
 libirc/line.c          |  15 +++--
 libirc/transport_ioc.c | 145 ++++++++++++++++++++++++-----------------
 2 files changed, 98 insertions(+), 62 deletions(-)

diff --git a/libirc/line.c b/libirc/line.c
index c0baf5a..9b2f378 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -157,20 +157,27 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 {
 	char *raw, *cvrt = NULL;
 	GIOStatus ret;
-	gsize bytes_written = 0;
+	gsize bytes_written = 0, len;
 
 	g_assert(c);
 
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
-		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
+		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, &len, error);
+		g_free(raw);
 		if (cvrt == NULL)
 			return G_IO_STATUS_ERROR;
-		g_free(raw);
 	} else {
 		cvrt = raw;
+		len = strlen(cvrt);
 	}
-	ret = g_io_channel_write_chars(c, cvrt, -1, &bytes_written, error);
+
+	/* Make sure the line is either accepted completely or not at all */
+	if (g_io_channel_get_buffered(c) &&
+		g_io_channel_get_buffer_size(c) < len + 16)
+		g_io_channel_set_buffer_size(c, len + 16);
+
+	ret = g_io_channel_write_chars(c, cvrt, len, &bytes_written, error);
 	g_free(cvrt);
 
 	if (ret == G_IO_STATUS_AGAIN) {
diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index 1889864..f6700c5 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -28,6 +28,9 @@
 #include <netdb.h>
 
 struct irc_transport_data_iochannel {
+	/** Transport this is the data of, or NULL if it is gone already and
+	 * only the pending output still has to be written. */
+	struct irc_transport *transport;
 	GIOChannel *incoming;
 	gboolean pending_disconnect;
 	gint incoming_id;
@@ -53,6 +56,13 @@ static void irc_transport_iochannel_free_data(void *data)
 
 	g_assert(backend_data->pending_disconnect);
 
+	if (backend_data->incoming != NULL) {
+		/* There still is output pending, transport_send_queue() will
+		 * free the data once that has been written. */
+		backend_data->transport = NULL;
+		return;
+	}
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 	if (backend_data->incoming_iconv != (GIConv)-1)
@@ -132,11 +142,9 @@ static void really_disconnect(struct irc_transport_data_iochannel *backend_data)
 {
 	g_io_channel_unref(backend_data->incoming);
 
-	g_source_remove(backend_data->incoming_id);
-	if (backend_data->buffered_id)
-		g_source_remove(backend_data->buffered_id);
 	if (backend_data->outgoing_id)
 		g_source_remove(backend_data->outgoing_id);
+	backend_data->outgoing_id = 0;
 
 	backend_data->incoming = NULL;
 }
@@ -147,6 +155,14 @@ static void irc_transport_iochannel_disconnect(void *data)
 
 	backend_data->pending_disconnect = TRUE;
 
+	/* Nobody is interested in any further input */
+	if (backend_data->incoming_id)
+		g_source_remove(backend_data->incoming_id);
+	backend_data->incoming_id = 0;
+	if (backend_data->buffered_id)
+		g_source_remove(backend_data->buffered_id);
+	backend_data->buffered_id = 0;
+
 	if (backend_data->outgoing_id == 0)
 		really_disconnect(backend_data);
 }
@@ -174,10 +190,11 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 
 	switch (status) {
 	case G_IO_STATUS_AGAIN:
-		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
-										transport_send_queue, transport);
+		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming,
+										G_IO_OUT | G_IO_ERR | G_IO_HUP,
+										transport_send_queue, backend_data);
 		g_queue_push_tail(backend_data->pending_lines, linedup(l));
-		break;
+		return TRUE;
 	case G_IO_STATUS_EOF:
 		transport->callbacks->hangup(transport);
 		return FALSE;
@@ -199,8 +216,9 @@ static gboolean irc_transport_iochannel_send_line(struct irc_transport *transpor
 	case G_IO_STATUS_NORMAL:
 		break;
 	case G_IO_STATUS_AGAIN:
-		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming, G_IO_OUT,
-										transport_send_queue, transport);
+		backend_data->outgoing_id = g_io_add_watch(backend_data->incoming,
+										G_IO_OUT | G_IO_ERR | G_IO_HUP,
+										transport_send_queue, backend_data);
 		break;
 	case G_IO_STATUS_ERROR:
 		transport->callbacks->log(transport, l, *error);
@@ -249,8 +267,7 @@ static gboolean handle_recv_status(struct irc_transport *transport, GIOStatus st
 	}
 
 	if (status != G_IO_STATUS_AGAIN) {
-		if (error->domain == G_CONVERT_ERROR &&
-			error->code == G_CONVERT_ERROR_ILLEGAL_SEQUENCE) {
+		if (error != NULL && error->domain == G_CONVERT_ERROR) {
 			transport->callbacks->charset_error(transport,
 												error->message);
 		} else {
@@ -263,10 +280,9 @@ static gboolean handle_recv_status(struct irc_transport *transport, GIOStatus st
 
 
 
-static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
-									  void *_transport)
+static gboolean transport_receive(GIOChannel *c, GIOCondition cond,
+								  struct irc_transport *transport)
 {
-	struct irc_transport *transport = _transport;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 	struct irc_line *l;
 
@@ -294,8 +310,15 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 
 			if (!ret)
 				return FALSE;
+
+			/* The line could have been a reason to disconnect */
+			if (backend_data->pending_disconnect)
+				return FALSE;
 		}
 
+		/* Set for lines that could be received but not be converted */
+		free_line(l);
+
 		ret &= handle_recv_status(transport, status, error);
 		if (error != NULL)
 			g_error_free(error);
@@ -311,7 +334,19 @@ static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
 	return TRUE;
 }
 
+static gboolean handle_transport_receive(GIOChannel *c, GIOCondition cond,
+									  void *_transport)
+{
+	gboolean ret;
 
+	/* The channel is still needed here if one of the callbacks disconnects
+	 * the transport. */
+	g_io_channel_ref(c);
+	ret = transport_receive(c, cond, _transport);
+	g_io_channel_unref(c);
+
+	return ret;
+}
 
 static gboolean irc_transport_iochannel_is_connected(void *data)
 {
@@ -344,6 +379,7 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 	
 	ret->backend_ops = &irc_transport_iochannel_ops;
 	ret->backend_data = backend_data;
+	backend_data->transport = ret;
 	backend_data->incoming = iochannel;
 	backend_data->pending_lines = g_queue_new();
 	backend_data->outgoing_iconv = backend_data->incoming_iconv = (GIConv)-1;
@@ -353,72 +389,65 @@ struct irc_transport *irc_transport_new_iochannel(GIOChannel *iochannel)
 }
 
 static gboolean transport_send_queue(GIOChannel *ioc, GIOCondition cond,
-									  void *_transport)
+									  void *data)
 {
-	gboolean ret = FALSE;
-	struct irc_transport *transport = _transport;
-	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
+	struct irc_transport_data_iochannel *backend_data = data;
 	GIOStatus status;
+	GError *error = NULL;
 
 	g_assert(ioc == backend_data->incoming);
-
-	status = g_io_channel_flush(backend_data->incoming, NULL);
-	if (status == G_IO_STATUS_AGAIN)
-		ret = TRUE;
-
 	g_assert(backend_data->pending_lines != NULL);
 
-	while (!g_queue_is_empty(backend_data->pending_lines)) {
-		GError *error = NULL;
+	status = g_io_channel_flush(backend_data->incoming, &error);
+
+	while (status == G_IO_STATUS_NORMAL &&
+		   !g_queue_is_empty(backend_data->pending_lines)) {
 		struct irc_line *l = g_queue_pop_head(backend_data->pending_lines);
 
-		g_assert(backend_data->incoming != NULL);
 		status = irc_send_line(backend_data->incoming,
 							   backend_data->outgoing_iconv, l, &error);
 
-		switch (status) {
-		case G_IO_STATUS_AGAIN:
+		if (status == G_IO_STATUS_AGAIN) {
 			g_queue_push_head(backend_data->pending_lines, l);
-			return TRUE;
-		case G_IO_STATUS_ERROR:
-			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
 			break;
-		case G_IO_STATUS_EOF:
-			backend_data->outgoing_id = 0;
-
-			transport->callbacks->hangup(transport);
-
-			free_line(l);
+		}
 
-			return FALSE;
-		case G_IO_STATUS_NORMAL:
-			transport->last_line_sent = time(NULL);
-			break;
+		if (status == G_IO_STATUS_NORMAL) {
+			if (backend_data->transport != NULL)
+				backend_data->transport->last_line_sent = time(NULL);
+			status = g_io_channel_flush(backend_data->incoming, &error);
 		}
 
-		status = g_io_channel_flush(backend_data->incoming, &error);
-		switch (status) {
-		case G_IO_STATUS_EOF:
-			g_assert_not_reached();
-		case G_IO_STATUS_AGAIN:
-			free_line(l);
-			return TRUE;
-		case G_IO_STATUS_NORMAL:
-			break;
-		case G_IO_STATUS_ERROR:
-			transport->callbacks->log(transport, l, error);
-			g_error_free(error);
-			break;
+		if (status == G_IO_STATUS_ERROR && backend_data->transport != NULL)
+			backend_data->transport->callbacks->log(backend_data->transport,
+													l, error);
+		if (error != NULL && error->domain == G_CONVERT_ERROR) {
+			/* Just this line couldn't be written */
+			status = G_IO_STATUS_NORMAL;
 		}
+		g_clear_error(&error);
+
 		free_line(l);
 	}
 
-	if (!ret)
-		backend_data->outgoing_id = 0;
+	g_clear_error(&error);
 
-	if (!ret && backend_data->pending_disconnect)
+	if (status == G_IO_STATUS_AGAIN)
+		return TRUE;
+
+	/* Either everything has been written, or nothing more can be; in the
+	 * latter case the peer is gone, which will be noticed when reading. */
+	g_queue_foreach(backend_data->pending_lines, free_pending_line, NULL);
+	g_queue_clear(backend_data->pending_lines);
+
+	backend_data->outgoing_id = 0;
+
+	if (backend_data->pending_disconnect) {
 		really_disconnect(backend_data);
 
-	return ret;
+		if (backend_data->transport == NULL)
+			irc_transport_iochannel_free_data(backend_data);
+	}
+
+	return FALSE;
 }
-- 
2.43.0


From a825b976966e5bbca62d0d9db50a186c29db727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:10 +0000
Subject: [PATCH 20/88] fix: accept bytes in any encoding from clients of the
 local socket

---
 src/client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.c b/src/client.c
index 5eda168..6e76dce 100644
--- a/src/client.c
+++ b/src/client.c
@@ -318,6 +318,7 @@ struct irc_client *client_init_iochannel(struct irc_network *n, GIOChannel *c, c
 	struct irc_client *client;
 	g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL);
 	g_io_channel_set_close_on_unref(c, TRUE);
+	g_io_channel_set_encoding(c, NULL, NULL);
 	transport = irc_transport_new_iochannel(c);
 
 	client = client_init(n, transport, desc);
-- 
2.43.0


From fd3ab8f10052db01012f6bc361d2460edef91b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:09 +0000
Subject: [PATCH 21/88] fix: keep pinging servers until disconnected

---
 libirc/connection.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 27348a5..1f2c096 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -394,19 +394,23 @@ static gboolean bindsock(struct irc_network *s,
 /**
  * Ping the network.
  *
- * @param server network to ping
- * @param ping_source GSource id of the ping event
+ * @param data network to ping
+ * @return Whether to keep pinging
  */
-static void ping_server(struct irc_network *server, gboolean ping_source)
+static gboolean ping_server(gpointer data)
 {
+	struct irc_network *server = data;
 	gint silent_time = time(NULL) - server->connection.last_line_recvd;
 	if (silent_time > MAX_SILENT_TIME) {
 		network_report_disconnect(server, "Ping timeout (%d seconds)",
 								  silent_time);
 		reconnect(server);
+		return FALSE;
 	} else if (silent_time > MIN_SILENT_TIME) {
 		network_send_args(server, "PING", "ctrlproxy", NULL);
 	}
+
+	return TRUE;
 }
 
 static gboolean connect_current_tcp_server(struct irc_network *s)
@@ -700,7 +704,7 @@ static gboolean server_finish_connect(GIOChannel *ioc, GIOCondition cond,
 
 		s->connection.last_line_recvd = time(NULL);
 		s->connection.data.tcp.ping_id = g_timeout_add(5000,
-									   (GSourceFunc) ping_server, s);
+									   ping_server, s);
 
 		return FALSE;
 	}
-- 
2.43.0


From 1493e736f976fdeeae2a83557f5d99c65bed0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 22/88] fix: try the next server when connecting fails

---
 libirc/connection.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 1f2c096..fa598da 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -31,6 +31,7 @@ static gboolean delayed_connect_server(struct irc_network *s);
 static gboolean connect_server(struct irc_network *s);
 static gboolean close_server(struct irc_network *s);
 static void reconnect(struct irc_network *server);
+static void free_tcp_names(struct irc_network *n);
 static gboolean server_finish_connect(GIOChannel *ioc, GIOCondition cond,
 				      void *data);
 
@@ -456,10 +457,9 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 	/* Lookup */
 	error = getaddrinfo(cs->host, cs->port, &hints, &addrinfo);
 	if (error) {
-		network_log(LOG_ERROR, s, "Unable to lookup %s:%s %s",
+		network_report_disconnect(s, "Unable to lookup %s:%s %s",
 					cs->host, cs->port, gai_strerror(error));
-		if (addrinfo != NULL)
-			freeaddrinfo(addrinfo);
+		reconnect(s);
 		return FALSE;
 	}
 
@@ -470,6 +470,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 		sock = socket(res->ai_family, res->ai_socktype,
 					  res->ai_protocol);
 		if (sock < 0) {
+			error = errno;
 			continue;
 		}
 
@@ -479,6 +480,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 			bindsock(s, sock, res, nc->type_settings.tcp.default_bind_address, NULL);
 
 		ioc = g_io_channel_unix_new(sock);
+		g_io_channel_set_close_on_unref(ioc, TRUE);
 		g_io_channel_set_flags(ioc, G_IO_FLAG_NONBLOCK, NULL);
 
 		if (connect(sock, res->ai_addr, res->ai_addrlen) < 0) {
@@ -486,6 +488,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 				connect_finished = FALSE;
 				break;
 			}
+			error = errno;
 			g_io_channel_unref(ioc);
 			ioc = NULL;
 			continue;
@@ -499,7 +502,9 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 	g_assert(s->connection.data.tcp.remote_name == NULL);
 
 	if (!res || !ioc) {
-		network_log(LOG_ERROR, s, "Unable to connect: %s", strerror(errno));
+		network_report_disconnect(s, "Unable to connect: %s", strerror(error));
+		freeaddrinfo(addrinfo);
+		reconnect(s);
 		return FALSE;
 	}
 
@@ -510,8 +515,6 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 
 	freeaddrinfo(addrinfo);
 
-	g_io_channel_set_close_on_unref(ioc, TRUE);
-
 	cs = s->connection.data.tcp.current_server;
 	if (cs->ssl) {
 #ifdef HAVE_GNUTLS
@@ -524,6 +527,7 @@ static gboolean connect_current_tcp_server(struct irc_network *s)
 								 );
 		if (!ioc) {
 			network_report_disconnect(s, "Couldn't connect via server %s:%s", cs->host, cs->port);
+			free_tcp_names(s);
 			reconnect(s);
 			return FALSE;
 		}
@@ -846,8 +850,11 @@ static gboolean connect_server(struct irc_network *s)
 static gboolean delayed_connect_server(struct irc_network *s)
 {
 	g_assert(s);
+	s->reconnect_id = 0;
+	s->connection.state = NETWORK_CONNECTION_STATE_NOT_CONNECTED;
+	/* This schedules the next attempt itself, if necessary */
 	connect_server(s);
-	return (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
+	return FALSE;
 }
 
 struct irc_network *irc_network_new(const struct irc_network_callbacks *callbacks, void *private_data)
@@ -883,6 +890,10 @@ gboolean connect_network(struct irc_network *s)
 	g_assert(s->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED ||
 			 s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING);
 
+	/* No need to wait any longer */
+	if (s->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING)
+		close_server(s);
+
 	return connect_server(s);
 }
 
-- 
2.43.0


From 828ae4208c58cfea7eabd6b35db2009223f2c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 23/88] fix: connect without a usable backlog or with empty
 identity settings

---
 libirc/connection.c |  1 -
 src/network.c       | 21 ++++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index fa598da..06bc736 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -54,7 +54,6 @@ static void server_send_login (struct irc_network *s)
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
-	g_assert(s->linestack != NULL);
 
 	if (login_details->password != NULL) {
 		network_send_args(s, "PASS", login_details->password, NULL);
diff --git a/src/network.c b/src/network.c
index 3658a1e..6d68c59 100644
--- a/src/network.c
+++ b/src/network.c
@@ -322,21 +322,27 @@ void register_new_network_notify(struct global *global,
 	global->new_network_notifiers = g_list_append(global->new_network_notifiers, p);
 }
 
+/* Whether something usable has been configured */
+static gboolean is_set(const char *value)
+{
+	return value != NULL && value[0] != '\0';
+}
+
 static struct irc_login_details *get_login_details(struct irc_network *s)
 {
 	struct irc_login_details *ret = g_new0(struct irc_login_details, 1);
 	struct network_config *nc = s->private_data;
 
-	if (nc->username != NULL)
+	if (is_set(nc->username))
 		ret->username = g_strdup(nc->username);
-	else if (nc->global->default_username != NULL)
+	else if (is_set(nc->global->default_username))
 		ret->username = g_strdup(nc->global->default_username);
 	else
 		ret->username = g_strdup(g_get_user_name());
 
-	if (nc->fullname != NULL)
+	if (is_set(nc->fullname))
 		ret->realname = g_strdup(nc->fullname);
-	else if (nc->global->default_realname != NULL) {
+	else if (is_set(nc->global->default_realname)) {
 		ret->realname = g_strdup(nc->global->default_realname);
 	} else {
 		ret->realname = g_strdup(g_get_real_name());
@@ -347,9 +353,9 @@ static struct irc_login_details *get_login_details(struct irc_network *s)
 		}
 	}
 
-	if (nc->nick != NULL)
+	if (is_set(nc->nick))
 		ret->nick = g_strdup(nc->nick);
-	else if (nc->global->default_nick != NULL)
+	else if (is_set(nc->global->default_nick))
 		ret->nick = g_strdup(nc->global->default_nick);
 	else
 		ret->nick = g_strdup(g_get_user_name());
@@ -403,7 +409,8 @@ static gboolean process_to_server(struct irc_network *s,
 	}
 
 	run_log_filter(s, lc = linedup(l), TO_SERVER); free_line(lc);
-	if (!linestack_insert_line(s->linestack, l, TO_SERVER, s->external_state)) {
+	if (s->linestack != NULL &&
+		!linestack_insert_line(s->linestack, l, TO_SERVER, s->external_state)) {
 		network_log(LOG_ERROR, s, "Error inserting line into linestack.");
 	}
 
-- 
2.43.0


From afc0a1c63deecc856bf419b469e42ca3399a56f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 24/88] fix: survive malformed server messages in the network
 code

---
 src/ctcp.c          |  8 ++++++++
 src/ctcp_redirect.c |  1 +
 src/network.c       | 15 +++++++++++----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index 01b3fa2..c2141ed 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -195,6 +195,14 @@ gboolean ctcp_process_request (struct irc_network *n, const struct irc_line *l)
 	*t = '\0';
 
 	args = g_strsplit(data, " ", 0);
+	if (args[0] == NULL) {
+		network_log(LOG_WARNING, n, "Empty CTCP request from %s!", h.nick);
+		g_strfreev(args);
+		g_free(data);
+		g_free(h.nick);
+		return FALSE;
+	}
+
 	for (gl = cmds; gl; gl = gl->next) {
 		struct ctcp_handler *hl = gl->data;
 
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index 37c7931..e6180b6 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -124,6 +124,7 @@ gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_
 	/* otherwise, inform user */
 	network_log(LOG_WARNING, n, "Don't know where to send unknown CTCP reply '%s'", command);
 
+	g_free(nick);
 	g_free(command);
 
 	return TRUE;
diff --git a/src/network.c b/src/network.c
index 6d68c59..c2ecbbb 100644
--- a/src/network.c
+++ b/src/network.c
@@ -98,7 +98,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	log_network_line(n, l, TRUE);
 
 	/* Silently drop empty messages, as allowed by RFC */
-	if (l->argc == 0) {
+	if (l->argc == 0 || l->args[0][0] == '\0') {
 		return TRUE;
 	}
 
@@ -127,8 +127,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "PONG")){
 		return TRUE;
 	} else if (!base_strcmp(l->args[0], "ERROR")) {
-		network_log(LOG_ERROR, n, "error: %s", l->args[1]);
-	} else if (response == ERR_NICKNAMEINUSE &&
+		network_log(LOG_ERROR, n, "error: %s", l->argc > 1?l->args[1]:"");
+	} else if (response == ERR_NICKNAMEINUSE && l->argc > 2 &&
 			  n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT){
 		char *tmp = g_strdup_printf("%s_", l->args[2]);
 		network_send_args(n, "NICK", tmp, NULL);
@@ -161,6 +161,11 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		for (i = 0; nc->autocmd && nc->autocmd[i]; i++) {
 			struct irc_line *l = irc_parse_line(nc->autocmd[i]);
+			if (l == NULL) {
+				network_log(LOG_WARNING, n, "Ignoring malformed autocmd '%s'",
+							nc->autocmd[i]);
+				continue;
+			}
 			network_send_line(n, NULL, l);
 			free_line(l);
 		}
@@ -181,7 +186,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 			linestack_store &= (!redirect_response(n->queries, n, l));
 		} else {
 			if (n->clients == NULL) {
-				if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
+				if (l->origin == NULL) {
+					/* Nobody to reply to */
+				} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 					l->args[2][0] == '\001' &&
 					base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
 					network_process_ctcp_request(n, l);
-- 
2.43.0


From 5fe5621464fec1477cbee3915bb1f60f216bb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 25/88] fix: take the end of the MOTD for the end of the login
 only once

---
 src/network.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index c2ecbbb..5f3ae56 100644
--- a/src/network.c
+++ b/src/network.c
@@ -136,7 +136,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 					l->args[2], tmp);
 		network_nick_set_nick(&n->external_state->me, tmp);
 		g_free(tmp);
-	} else if (response == RPL_ENDOFMOTD || response == ERR_NOMOTD) {
+	} else if ((response == RPL_ENDOFMOTD || response == ERR_NOMOTD) &&
+			   n->connection.state != NETWORK_CONNECTION_STATE_MOTD_RECVD) {
 		int i;
 		GList *gl;
 		n->connection.state = NETWORK_CONNECTION_STATE_MOTD_RECVD;
-- 
2.43.0


From ad7e2ec91f2018c032badf75d77ef7cf5c24d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 26/88] fix: return all data of CTCP PING requests

---
 src/ctcp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ctcp.c b/src/ctcp.c
index c2141ed..d19a919 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -122,7 +122,10 @@ static void handle_version(struct ctcp_handle *h, const char **args)
 
 static void handle_ping(struct ctcp_handle *h, const char **args)
 {
-	ctcp_reply(h, "PING", args[1], NULL);
+	/* All of the data has to be returned */
+	char *data = (args[1] != NULL)?g_strjoinv(" ", (char **)args+1):NULL;
+	ctcp_reply(h, "PING", data, NULL);
+	g_free(data);
 }
 
 static void handle_clientinfo(struct ctcp_handle *h, const char **args);
-- 
2.43.0


From 5dd826c9643cc09e7d0c3b3ca16a608339e22f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 27/88] fix: forget the CTCP requests of clients that went away

---
 src/client.c        |  2 ++
 src/ctcp.h          |  1 +
 src/ctcp_redirect.c | 24 ++++++++++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/client.c b/src/client.c
index 6e76dce..8bd4b05 100644
--- a/src/client.c
+++ b/src/client.c
@@ -271,6 +271,8 @@ static void handle_client_disconnect(struct irc_client *c)
 	if (c->network != NULL) {
 		c->network->clients = g_list_remove(c->network->clients, c);
 	}
+
+	ctcp_client_forget(c);
 }
 
 static void client_connect_command(struct irc_client *client, const char *hostname, guint16 port)
diff --git a/src/ctcp.h b/src/ctcp.h
index 7113c43..1283ad5 100644
--- a/src/ctcp.h
+++ b/src/ctcp.h
@@ -36,6 +36,7 @@ struct ctcp_handler {
 
 gboolean ctcp_network_redirect_response(struct irc_network *, const struct irc_line *);
 gboolean ctcp_client_request_record(struct irc_client *, struct irc_line *);
+void ctcp_client_forget(struct irc_client *);
 gboolean ctcp_process_request(struct irc_network *, const struct irc_line *);
 G_MODULE_EXPORT void ctcp_register_handler(const struct ctcp_handler *);
 G_MODULE_EXPORT G_GNUC_NULL_TERMINATED void ctcp_send(struct irc_network *, const char *, ...);
diff --git a/src/ctcp_redirect.c b/src/ctcp_redirect.c
index e6180b6..4547e48 100644
--- a/src/ctcp_redirect.c
+++ b/src/ctcp_redirect.c
@@ -79,6 +79,30 @@ gboolean ctcp_client_request_record (struct irc_client *c, struct irc_line *l)
 	return TRUE;
 }
 
+/**
+ * Forget about the requests of a client.
+ *
+ * @param c Client that is going away
+ */
+void ctcp_client_forget(struct irc_client *c)
+{
+	GList *gl = ctcp_request_queue;
+
+	while (gl != NULL) {
+		struct ctcp_request *req = gl->data;
+		GList *next = gl->next;
+
+		if (req->client == c) {
+			ctcp_request_queue = g_list_delete_link(ctcp_request_queue, gl);
+			g_free(req->command);
+			g_free(req->destination);
+			g_free(req);
+		}
+
+		gl = next;
+	}
+}
+
 gboolean ctcp_network_redirect_response(struct irc_network *n, const struct irc_line *l)
 {
 	GList *gl;
-- 
2.43.0


From f44589479b4cb6f5f2cf72d1bcb413b5796ff98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 28/88] fix: answer every command of clients while there is no
 server connection

---
 src/client.c | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/client.c b/src/client.c
index 8bd4b05..1348aff 100644
--- a/src/client.c
+++ b/src/client.c
@@ -38,7 +38,9 @@ static gboolean process_to_client(struct irc_client *c, const struct irc_line *l
 
 static void handle_offline_command(struct irc_client *c, const struct irc_line *l, const char *offline_reason)
 {
-	if (!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) {
+	if (l->argc < 2) {
+		client_send_response(c, ERR_UNKNOWNCOMMAND, l->args[0], offline_reason, NULL);
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) {
 		client_send_response(c, ERR_NOSUCHNICK, l->args[1], offline_reason, NULL);
 	} else if (!base_strcmp(l->args[0], "JOIN")) {
 		/* Make network->internal_state join channel */
@@ -94,9 +96,22 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "CTRLPROXY")) {
 		admin_process_command(c, l, 1);
 	} else if (c->network->global->config->admin_user != NULL &&
-			   !base_strcmp(l->args[0], "PRIVMSG") &&
+			   !base_strcmp(l->args[0], "PRIVMSG") && l->argc > 1 &&
 			   !base_strcmp(l->args[1], c->network->global->config->admin_user)) {
 		admin_process_command(c, l, 2);
+	} else if (!base_strcmp(l->args[0], "")) {
+	} else if (c->network->connection.state != NETWORK_CONNECTION_STATE_MOTD_RECVD) {
+		char *msg;
+		if (c->network->connection.data.tcp.last_disconnect_reason == NULL) {
+			msg = g_strdup("Currently not connected to server...");
+		} else {
+			msg = g_strdup_printf("Currently not connected to server... (%s)",
+					c->network->connection.data.tcp.last_disconnect_reason);
+		}
+
+		handle_offline_command(c, l, msg);
+
+		g_free(msg);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2 &&
 			l->args[2][0] == '\001' &&
 			base_strncmp(l->args[2], "\001ACTION", 7) != 0) {
@@ -107,8 +122,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
 			l->args[2][0] == '\001') {
 		network_forward_line(c->network, c, l, TRUE);
-	} else if (!base_strcmp(l->args[0], "")) {
-	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) {
+	} else {
 		struct network_config *nc = c->network->private_data;
 
 		if (nc->disable_cache || !client_try_cache(c, c->network->external_state, l, &c->network->global->config->cache)) {
@@ -116,18 +130,6 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 			 * to the server, though unlikely to occur often */
 			network_forward_line(c->network, c, l, FALSE);
 		}
-	} else if (c->network->connection.state == NETWORK_CONNECTION_STATE_NOT_CONNECTED) {
-		char *msg;
-		if (c->network->connection.data.tcp.last_disconnect_reason == NULL) {
-			msg = g_strdup("Currently not connected to server...");
-		} else {
-			msg = g_strdup_printf("Currently not connected to server... (%s)",
-					c->network->connection.data.tcp.last_disconnect_reason);
-		}
-
-		handle_offline_command(c, l, msg);
-
-		g_free(msg);
 	}
 
 	g_free(l->origin);
-- 
2.43.0


From ed10629e34b849cd0b2f3365960ede409cf24a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 29/88] fix: release clients that have disconnected

---
 src/client.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/client.c b/src/client.c
index 1348aff..f0da1b6 100644
--- a/src/client.c
+++ b/src/client.c
@@ -261,6 +261,12 @@ void del_lose_client_hook(const char *name)
 	}
 }
 
+static gboolean unref_client(gpointer data)
+{
+	client_unref(data);
+	return FALSE;
+}
+
 static void handle_client_disconnect(struct irc_client *c)
 {
 	GList *l;
@@ -275,6 +281,10 @@ static void handle_client_disconnect(struct irc_client *c)
 	}
 
 	ctcp_client_forget(c);
+
+	/* Drop the reference that was held for the connection, but not before
+	 * whatever is using the client at the moment has finished. */
+	g_idle_add(unref_client, c);
 }
 
 static void client_connect_command(struct irc_client *client, const char *hostname, guint16 port)
-- 
2.43.0


From eca6a45fdbb26fee398444039e347f959bee839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:11 +0000
Subject: [PATCH 30/88] fix: find the query a response belongs to by what it is
 about

---
 libirc/redirect.c | 275 ++++++++++++++++++++++++++++++++++++++++------
 libirc/redirect.h |  11 ++
 2 files changed, 250 insertions(+), 36 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 929ae2f..3ec3754 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -22,7 +22,12 @@
 #include <string.h>
 #include "irc.h"
 
-/* TODO: Clean up stack occasionally */
+/* Seconds after which queries without any reply are forgotten */
+#define MAX_SILENT_QUERY_AGE 60
+#define MAX_QUERY_AGE 600
+
+/* Seconds in which a server can be expected to refuse a command */
+#define RECENT_QUERY_AGE 5
 
 struct query_stack *new_query_stack(void (*ref_userdata) (void *), void (*unref_userdata) (void *))
 {
@@ -37,8 +42,6 @@ struct query_stack *new_query_stack(void (*ref_userdata) (void *), void (*unref_
 
 static int handle_default(const struct irc_line *, struct query_stack *stack,
 						  void *userdata, struct query *);
-static int handle_topic(const struct irc_line *, struct query_stack *stack,
-						void *userdata, struct query *);
 
 static struct query queries[] = {
 /* Commands that get a one-client reply:
@@ -85,7 +88,7 @@ static struct query queries[] = {
 		{ RPL_NOTOPIC, RPL_TOPIC, RPL_TRYAGAIN, 0 },
 		{ ERR_NOTONCHANNEL, ERR_NEEDMOREPARAMS, ERR_CHANOPPRIVSNEEDED,
 			ERR_NOCHANMODES, 0 },
-		handle_topic
+		handle_default
 	},
 	
  /* WHOWAS <nickname> [<count> [<server>]]*/
@@ -137,8 +140,8 @@ static struct query queries[] = {
 		{ RPL_TRACELINK, RPL_TRACECONNECTING,
 		  RPL_TRACEUNKNOWN, RPL_TRACEUSER, RPL_TRACECLASS,
 		  RPL_TRACEHANDSHAKE, RPL_TRACEOPERATOR,
-		  RPL_TRACESERVER, RPL_TRACENEWTYPE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		  RPL_TRACESERVER, RPL_TRACENEWTYPE, RPL_TRACELOG, 0 },
+		{ RPL_TRACEEND, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -336,9 +339,8 @@ static struct query queries[] = {
 
  /* LUSERS [ <mask> [ <target> ] ] */
 	{ "LUSERS",
-		{ RPL_LUSERCLIENT, RPL_LUSEROP, RPL_LUSERUNKNOWN, RPL_LUSERCHANNELS,
-			RPL_LUSERME, RPL_STATSTLINE, 0 },
-		{ RPL_TRYAGAIN, 0 },
+		{ RPL_LUSERCLIENT, RPL_LUSEROP, RPL_LUSERUNKNOWN, RPL_LUSERCHANNELS, 0 },
+		{ RPL_LUSERME, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, 0 },
 		handle_default
 	},
@@ -353,10 +355,9 @@ static struct query queries[] = {
 
  /* ADMIN [ <target> ] */
 	{ "ADMIN",
-		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1,
-			RPL_ADMINLOC3, 0 },
-		{ RPL_TRYAGAIN, 0 },
-		{ ERR_NOSUCHSERVER, 0 },
+		{ RPL_ADMINME, RPL_ADMINLOC2, RPL_ADMINLOC1, 0 },
+		{ RPL_ADMINLOC3, RPL_TRYAGAIN, 0 },
+		{ ERR_NOSUCHSERVER, ERR_NOADMININFO, 0 },
 		handle_default
 	},
 	
@@ -519,40 +520,185 @@ static struct query *find_query(char *name)
 static void query_stack_free_entry(struct query_stack *stack, struct query_stack_entry *s)
 {
 	stack->unref_userdata(s->userdata);
+	g_strfreev(s->args);
 	g_free(s);
 }
 
+/* Remove an entry, but leave its userdata usable until the next call */
+static void query_stack_answered(struct query_stack *stack, struct query_stack_entry *s)
+{
+	stack->entries = g_list_remove(stack->entries, s);
+	if (stack->answered != NULL)
+		query_stack_free_entry(stack, stack->answered);
+	stack->answered = s;
+}
+
+/**
+ * Check whether a name is one of those in a comma-separated list.
+ */
+static gboolean name_in_list(const char *name, const char *list)
+{
+	char **names = g_strsplit(list, ",", 0);
+	gboolean ret = FALSE;
+	int i;
+
+	for (i = 0; names[i] != NULL && !ret; i++)
+		ret = (str_rfc1459cmp(names[i], name) == 0);
+
+	g_strfreev(names);
+	return ret;
+}
+
+/**
+ * Check whether a query mentions something.
+ */
+static gboolean query_names(const struct query_stack_entry *s, const char *name)
+{
+	int i;
+
+	for (i = 0; s->args[i] != NULL; i++) {
+		if (str_rfc1459cmp(s->args[i], name) == 0 ||
+			(i > 0 && name_in_list(name, s->args[i])))
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+/**
+ * Check whether a response is about something mentioned in a query.
+ */
+static gboolean query_names_subject(const struct query_stack_entry *s, const struct irc_line *l)
+{
+	int i;
+
+	/* The last parameter just is a description */
+	for (i = 2; i < l->argc-1 && i < 5; i++) {
+		if (query_names(s, l->args[i]))
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+/**
+ * Check whether a response is also used without anybody having asked, about
+ * a channel.
+ */
+static gboolean is_announcement(int n)
+{
+	switch (n) {
+	case RPL_NAMREPLY:
+	case RPL_ENDOFNAMES:
+	case RPL_TOPIC:
+	case RPL_NOTOPIC:
+		return TRUE;
+	default:
+		return FALSE;
+	}
+}
+
+/**
+ * Find the query a response is the reply to.
+ *
+ * Servers handle commands in order, but don't reply to all of them.
+ *
+ * @return userdata of the query or NULL. It is valid until the next query
+ *         or response is processed.
+ */
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
 {
 	int n;
-	void *ret = NULL;
-	GList *gl;
+	GList *gl, *next;
+	struct query_stack_entry *e = NULL, *first_silent = NULL,
+							 *named_silent = NULL, *other = NULL,
+							 *other_silent = NULL, *oldest;
+	time_t now = time(NULL);
+	gboolean done;
 
 	g_assert(l->args[0]);
 
 	n = irc_line_respcode(l);
 
 	/* Find a request that this response is a reply to */
-	for (gl = stack->entries; gl; gl = gl->next) {
+	for (gl = stack->entries; gl && e == NULL; gl = gl->next) {
 		struct query_stack_entry *s = gl->data;
-		if (is_reply(s->query->replies, n) ||
-			is_reply(s->query->errors, n) ||
-			is_reply(s->query->end_replies, n)) {
-			
-			ret = s->userdata;
 
-			/* Not a valid in-between reply ? Remove from stack */
-			if (!is_reply(s->query->replies, n)) {
-				/* Remove from stack */
-				stack->entries = g_list_remove(stack->entries, s);
-				query_stack_free_entry(stack, s);
+		if (!is_reply(s->query->replies, n) &&
+			!is_reply(s->query->errors, n) &&
+			!is_reply(s->query->end_replies, n))
+			continue;
+
+		if (s->silent && is_reply(s->query->replies, n))
+			continue;
+
+		if (s->silent && n != RPL_TRYAGAIN && n != RPL_AWAY &&
+			is_reply(s->query->end_replies, n))
+			continue;
+
+		if (query_names_subject(s, l)) {
+			if (!s->silent)
+				e = s;
+			else {
+				if (named_silent == NULL)
+					first_silent = s;
+				named_silent = s;
 			}
+		} else if (is_announcement(n)) {
+			if (!s->silent && s->args[1] == NULL && other == NULL)
+				other = s;
+		} else if (!s->silent) {
+			if (other == NULL)
+				other = s;
+		} else {
+			other_silent = s;
+		}
+	}
+
+	/* Commands that usually are not replied to may have been handled long
+	 * ago. If several of them are alike, so are their replies. */
+	if (named_silent != NULL &&
+		(e == NULL || (!e->started &&
+					   now - named_silent->time <= RECENT_QUERY_AGE)))
+		e = named_silent;
+
+	if (e == NULL)
+		e = (other != NULL)?other:other_silent;
+
+	if (e == NULL)
+		return NULL;
 
-			return ret;
+	/* Anything that was sent before must have been handled by now */
+	oldest = (e == named_silent)?first_silent:e;
+	for (gl = stack->entries; gl != NULL && gl->data != oldest; gl = next) {
+		struct query_stack_entry *s = gl->data;
+
+		next = gl->next;
+		if (s->silent && s != e) {
+			stack->entries = g_list_delete_link(stack->entries, gl);
+			query_stack_free_entry(stack, s);
 		}
 	}
 
-	return NULL;
+	if (is_reply(e->query->replies, n)) {
+		e->started = TRUE;
+		return e->userdata;
+	}
+
+	/* Not a valid in-between reply ? Remove from stack, unless this is just
+	 * about one of several targets. */
+	done = TRUE;
+	if (e->targets > 1 && l->argc > 3 &&
+		str_rfc1459cmp(e->args[1], l->args[2]) != 0 &&
+		name_in_list(l->args[2], e->args[1])) {
+		e->targets--;
+		done = FALSE;
+	}
+
+	if (done)
+		query_stack_answered(stack, e);
+
+	return e->userdata;
 }
 
 void query_stack_clear(struct query_stack *stack)
@@ -562,6 +708,11 @@ void query_stack_clear(struct query_stack *stack)
 		stack->entries = g_list_remove(stack->entries, e);
 		query_stack_free_entry(stack, e);
 	}
+
+	if (stack->answered != NULL) {
+		query_stack_free_entry(stack, stack->answered);
+		stack->answered = NULL;
+	}
 }
 
 void query_stack_free(struct query_stack *stack)
@@ -570,6 +721,25 @@ void query_stack_free(struct query_stack *stack)
 	g_free(stack);
 }
 
+/**
+ * Forget about queries that won't be replied to any more.
+ */
+static void query_stack_clean(struct query_stack *stack)
+{
+	time_t now = time(NULL);
+	GList *gl, *next;
+
+	for (gl = stack->entries; gl != NULL; gl = next) {
+		struct query_stack_entry *s = gl->data;
+
+		next = gl->next;
+		if (now - s->time > (s->silent?MAX_SILENT_QUERY_AGE:MAX_QUERY_AGE)) {
+			stack->entries = g_list_delete_link(stack->entries, gl);
+			query_stack_free_entry(stack, s);
+		}
+	}
+}
+
 gboolean query_stack_record(struct query_stack *stack, void *userdata, const struct irc_line *l)
 {
 	struct query *q;
@@ -578,6 +748,8 @@ gboolean query_stack_record(struct query_stack *stack, void *userdata, const str
 	g_assert(l);
 	g_assert(l->args[0]);
 
+	query_stack_clean(stack);
+
 	q = find_query(l->args[0]);
 	if (q == NULL) {
 		ret = FALSE;
@@ -590,23 +762,54 @@ gboolean query_stack_record(struct query_stack *stack, void *userdata, const str
 	return ret;
 }
 
+/**
+ * Check whether the only possible replies to a command are errors.
+ */
+static gboolean query_is_silent(const struct query *q, const struct irc_line *l)
+{
+	int i;
+
+	if (!base_strcmp(l->args[0], "TOPIC"))
+		return l->argc > 2;
+
+	if (!base_strcmp(l->args[0], "MODE") && l->argc > 2) {
+		/* Only lists can be queried this way */
+		return l->argc > 3 ||
+			l->args[2][strspn(l->args[2], "+-beIqaR")] != '\0';
+	}
+
+	if (q->replies[0] != 0)
+		return FALSE;
+
+	for (i = 0; q->end_replies[i]; i++) {
+		if (q->end_replies[i] != RPL_TRYAGAIN && q->end_replies[i] != RPL_AWAY)
+			return FALSE;
+	}
+
+	return TRUE;
+}
+
 static int handle_default(const struct irc_line *l, struct query_stack *stack,
 						  void *userdata, struct query *q)
 {
-	struct query_stack_entry *s = g_new(struct query_stack_entry, 1);
+	struct query_stack_entry *s = g_new0(struct query_stack_entry, 1);
+	int i;
+
 	g_assert(l != NULL);
 	g_assert(q != NULL);
 	stack->ref_userdata(userdata);
 	s->userdata = userdata;
 	s->time = time(NULL);
 	s->query = q;
+	s->silent = query_is_silent(q, l);
+	s->args = g_strdupv(l->args);
+	if (l->argc > 1) {
+		s->targets = 1;
+		for (i = 0; l->args[1][i]; i++) {
+			if (l->args[1][i] == ',')
+				s->targets++;
+		}
+	}
 	stack->entries = g_list_append(stack->entries, s);
 	return 1;
 }
-
-static int handle_topic(const struct irc_line *l, struct query_stack *stack, void *userdata, struct query *q)
-{
-	if (l->args[2] != NULL)
-		return 0;
-	return handle_default(l,stack,userdata,q);
-}
diff --git a/libirc/redirect.h b/libirc/redirect.h
index afa2bc9..a76c075 100644
--- a/libirc/redirect.h
+++ b/libirc/redirect.h
@@ -45,10 +45,21 @@ struct query_stack_entry {
 	const struct query *query;
 	void *userdata;
 	time_t time;
+	/** Command and parameters of the query */
+	char **args;
+	/** Whether there only is a reply if something went wrong */
+	gboolean silent;
+	/** Whether the first part of the reply has been received */
+	gboolean started;
+	/** Number of targets that have not been replied to yet */
+	int targets;
 };
 
 struct query_stack {
 	GList *entries;
+	/** Last query that was answered; keeps its userdata alive for the user of
+	 * query_stack_match_response() */
+	struct query_stack_entry *answered;
 	void (*unref_userdata) (void *);
 	void (*ref_userdata) (void *);
 };
-- 
2.43.0


From 8868d2ec8b758d7e909ad12c0b076b47ccb716f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 31/88] fix: announce supported features as separate parameters

---
 src/client.c | 54 +++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/client.c b/src/client.c
index f0da1b6..d16ce18 100644
--- a/src/client.c
+++ b/src/client.c
@@ -136,6 +136,51 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
 	return TRUE;
 }
 
+/* Maximum number of features to announce in a single line */
+#define MAX_LINE_FEATURES 12
+#define FEATURES_TRAILER "are supported on this server"
+
+/**
+ * Tell a client about the features supported by its network.
+ */
+static void client_send_features(struct irc_client *client)
+{
+	char *features = network_generate_feature_string(client->network);
+	char **tokens = g_strsplit(features, " ", 0);
+	int i, j;
+
+	for (i = 0; tokens[i] != NULL; ) {
+		struct irc_line *l = irc_parse_line_args(client->default_origin, "005",
+								client_get_default_target(client), NULL);
+		/* ":origin 005 nick ... :trailer\r\n" */
+		size_t len = strlen(": 005  :" FEATURES_TRAILER "\r\n") +
+			strlen(client_get_default_target(client));
+
+		if (client->default_origin != NULL)
+			len += strlen(client->default_origin);
+
+		for (j = 0; j < MAX_LINE_FEATURES && tokens[i] != NULL; j++, i++) {
+			if (len + strlen(tokens[i]) + 1 > IRC_MAXLINELEN)
+				break;
+
+			if (!line_add_arg(l, tokens[i]))
+				break;
+
+			len += strlen(tokens[i]) + 1;
+		}
+
+		if (j == 0) /* Doesn't fit on any line */
+			i++;
+		else if (line_add_arg(l, FEATURES_TRAILER))
+			client_send_line(client, l, NULL);
+
+		free_line(l);
+	}
+
+	g_strfreev(tokens);
+	g_free(features);
+}
+
 /**
  * Send welcome information to a client, optionally disconnecting
  * the client if it isn't welcome.
@@ -145,7 +190,7 @@ static gboolean process_from_client(struct irc_client *c, const struct irc_line
  */
 static gboolean welcome_client(struct irc_client *client)
 {
-	char *features, *tmp;
+	char *tmp;
 	struct network_config *nc;
 
 	g_assert(client != NULL);
@@ -170,12 +215,7 @@ static gboolean welcome_client(struct irc_client *client)
 		 (client->network->external_state != NULL && client->network->info->supported_channel_modes)?client->network->info->supported_channel_modes:ALLMODES,
 		 NULL);
 
-	features = network_generate_feature_string(client->network);
-
-	client_send_response(client, RPL_BOUNCE, features,
-						 "are supported on this server", NULL);
-
-	g_free(features);
+	client_send_features(client);
 
 	if (client->network->external_state != NULL) {
 		client_send_luserchannels(client, g_list_length(client->network->external_state->channels));
-- 
2.43.0


From 516a1b3429095735b8654148ef9b50f8bb30f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:00 +0000
Subject: [PATCH 32/88] fix: log every kind of message without crashing or
 leaving the log directory

---
 libirc/line.c       |  4 ++-
 libirc/python/irc.c |  7 ++++-
 src/log_custom.c    | 62 +++++++++++++--------------------------------
 src/log_subst.c     | 22 +++++++++-------
 src/log_support.c   |  8 ++++--
 5 files changed, 45 insertions(+), 58 deletions(-)

diff --git a/libirc/line.c b/libirc/line.c
index 9b2f378..80c8a08 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -325,7 +325,9 @@ char *line_get_nick(const struct irc_line *l)
 	char *nick = NULL;
 	char *t;
 	g_assert(l != NULL);
-	g_assert(l->origin != NULL);
+
+	if (l->origin == NULL)
+		return NULL;
 
 	nick = g_strdup(l->origin);
 	t = strchr(nick, '!');
diff --git a/libirc/python/irc.c b/libirc/python/irc.c
index 98da79e..9ce0acd 100644
--- a/libirc/python/irc.c
+++ b/libirc/python/irc.c
@@ -96,7 +96,12 @@ static PyObject *py_line_repr(PyLineObject *self)
 static PyObject *py_line_get_nick(PyLineObject *self)
 {
     char *str = line_get_nick(self->line);
-    PyObject *ret = PyString_FromString(str);
+    PyObject *ret;
+
+    if (str == NULL)
+        Py_RETURN_NONE;
+
+    ret = PyString_FromString(str);
     g_free(str);
     return ret;
 }
diff --git a/src/log_custom.c b/src/log_custom.c
index 441d592..885015a 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -118,10 +118,11 @@ static void file_write_target(struct log_custom_data *data,
 	if (fmt == NULL)
 		return;
 
-	g_assert(l->args[0] != NULL);
-	g_assert(l->args[1] != NULL);
+	/* No target, nowhere to log to */
+	if (l->args[1] == NULL)
+		return;
+
 	info = network_get_info(network);
-	g_assert(network->external_state->me.nick != NULL);
 
 	if (network->external_state != NULL &&
 		network->external_state->me.nick != NULL &&
@@ -140,7 +141,7 @@ static void file_write_channel_only(struct log_custom_data *data,
 				    struct irc_network *network,
 				    const char *fmt, const struct irc_line *l)
 {
-	if (fmt == NULL)
+	if (fmt == NULL || l->args[1] == NULL)
 		return;
 
 	file_write_line_target(data, network, fmt, l, l->args[1]);
@@ -196,15 +197,10 @@ static gboolean log_custom_data(struct irc_network *network,
 				enum data_direction dir, void *userdata)
 {
 	struct log_custom_data *data = userdata;
-	char *nick = NULL;
 	if (l->args == NULL || l->args[0] == NULL) {
 		return TRUE;
 	}
 
-	if (l->origin != NULL) {
-		nick = line_get_nick(l);
-	}
-
 	/* Loop thru possible values for %@ */
 
 	/* There are a few possibilities:
@@ -221,14 +217,20 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_only(data, network, data->config->part, l);
 	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
 		if (l->args[2][0] == '\001') {
-			l->args[2][strlen(l->args[2])-1] = '\0';
+			/* Ignore all other ctcp messages */
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
-				l->args[2]+=8;
+				char *orig = l->args[2];
+				char *text = g_strdup(orig + 8);
+				size_t len = strlen(text);
+
+				if (len > 0 && text[len-1] == '\001')
+					text[len-1] = '\0';
+
+				l->args[2] = text;
 				file_write_target(data, network, data->config->action, l);
-				l->args[2]-=8;
+				l->args[2] = orig;
+				g_free(text);
 			}
-			l->args[2][strlen(l->args[2])] = '\001';
-			/* Ignore all other ctcp messages */
 		} else {
 			file_write_target(data, network, data->config->msg, l);
 		}
@@ -242,35 +244,7 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_query(data, network, data->config->quit, l);
 	} else if (!base_strcmp(l->args[0], "KICK") && l->args[1] != NULL &&
 			   l->args[2] != NULL && dir == FROM_SERVER) {
-		if (strchr(l->args[1], ',') == NULL) {
-			file_write_channel_only(data, network, data->config->kick, l);
-		} else {
-			char *channels = g_strdup(l->args[1]);
-			char *nicks = g_strdup(l->args[1]);
-			char *p,*n; gboolean cont = TRUE;
-			char *_nick;
-
-			p = channels;
-			_nick = nicks;
-			while (cont) {
-				n = strchr(p, ',');
-
-				if (n == NULL)
-					cont = FALSE;
-				else
-					*n = '\0';
-
-				file_write_channel_only(data, network, data->config->kick, l);
-
-				p = n+1;
-				_nick = strchr(_nick, ',');
-				if (!_nick)break;
-				_nick++;
-			}
-
-			g_free(channels);
-			g_free(nicks);
-		}
+		file_write_channel_only(data, network, data->config->kick, l);
 	} else if (!base_strcmp(l->args[0], "TOPIC") && dir == FROM_SERVER &&
 		l->args[1] != NULL) {
 		if (l->args[2] != NULL) {
@@ -283,8 +257,6 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_channel_query(data, network, data->config->nickchange, l);
 	}
 
-	g_free(nick);
-
 	return TRUE;
 }
 
diff --git a/src/log_subst.c b/src/log_subst.c
index 154b65e..14941db 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -131,7 +131,10 @@ static char *get_network(struct subst_context *subst_ctx, const struct irc_line
 
 static char *get_server(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	if (subst_ctx->network->connection.data.tcp.current_server)
+	struct network_config *nc = subst_ctx->network->private_data;
+
+	if (nc != NULL && nc->type == NETWORK_TCP &&
+		subst_ctx->network->connection.data.tcp.current_server)
 		return g_strdup(subst_ctx->network->connection.data.tcp.current_server->host);
 	return g_strdup("");
 }
@@ -149,15 +152,10 @@ static char *get_identifier(struct subst_context *subst_ctx, const struct irc_li
 
 static char *get_modechanges(struct subst_context *subst_ctx, const struct irc_line *line, gboolean case_sensitive)
 {
-	char buf[512] = "";
-	int i;
-
-	for (i = 3 ; i < line->argc && line->args[i] != NULL; i++) {
-		if (i > 3) strncat(buf, " ", sizeof(buf)-1);
-		strncat(buf, line->args[i], sizeof(buf)-1);
-	}
+	if (line->argc <= 3)
+		return g_strdup("");
 
-	return g_strdup(buf);
+	return g_strjoinv(" ", line->args + 3);
 }
 
 static struct log_mapping mappings[] = {
@@ -243,6 +241,12 @@ static char *find_mapping(struct subst_context *subst_ctx,
 
 void convertslashes(char *a)
 {
+	/* "." and ".." refer to other directories, too */
+	if (strspn(a, ".") == strlen(a)) {
+		memset(a, '_', strlen(a));
+		return;
+	}
+
 	while (*a) {
 		if (*a == '/')
 			*a = '_';
diff --git a/src/log_support.c b/src/log_support.c
index 0956505..bd5fefd 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -57,7 +57,8 @@ static gboolean eval_remove(gpointer key, gpointer value, gpointer user_data)
 	struct log_support_context *ctx = user_data;
 
 	if (fi->last_used < time(NULL) - CLEANUP_THRESHOLD) {
-		ctx->num_opened--;
+		if (fi->file != NULL)
+			ctx->num_opened--;
 		g_assert(ctx->num_opened >= 0);
 		return TRUE;
 	}
@@ -73,8 +74,10 @@ void log_support_cleanup(struct log_support_context *ctx)
 static gboolean unconditional_remove(gpointer key, gpointer value,
 									 gpointer user_data)
 {
+	struct log_file_info *fi = value;
 	struct log_support_context *ctx = user_data;
-	ctx->num_opened--;
+	if (fi->file != NULL)
+		ctx->num_opened--;
 	g_assert(ctx->num_opened >= 0);
 	return TRUE;
 }
@@ -139,5 +142,6 @@ void log_support_writef(struct log_support_context *ctx,
 	va_start(ap, fmt);
 	ret = g_strdup_vprintf(fmt, ap);
 	log_support_write(ctx, path, ret);
+	g_free(ret);
 	va_end(ap);
 }
-- 
2.43.0


From 745ca65ea0133d8e8e9bd65ab2e15761c9ff3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 33/88] fix: handle all forms of NICK and NS commands in
 NickServ support

---
 src/nickserv.c | 59 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index b335e47..2d0e012 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -97,7 +97,7 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!strcasecmp(e->nick, n->external_state->me.nick)) {
+			!irccmp(n->external_state->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
 
@@ -115,46 +115,59 @@ static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 	}
 
 	if (e->pass == NULL || strcmp(e->pass, newpass) != 0) {
+		g_free(e->pass);
 		e->pass = g_strdup(newpass);
 		network_log(LOG_INFO, n, "Caching NickServ password for nick %s", e->nick);
 	}
 }
 
+/**
+ * Learn the password from a command for NickServ, if it is an IDENTIFY.
+ */
+static void learn_nickserv_command(struct irc_network *n, const char *command)
+{
+	size_t prefixlen = strlen("IDENTIFY ");
+
+	if (base_strncmp(command, "IDENTIFY ", prefixlen) != 0) {
+		return;
+	}
+
+	if (command[prefixlen] == '\0') {
+		return;
+	}
+
+	cache_nickserv_pass(n, command + prefixlen);
+}
+
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
 {
-	static char *nickattempt = NULL;
+	if (n->external_state == NULL) {
+		return TRUE;
+	}
 
 	/* User has changed his/her nick. Check whether this nick needs to be identified */
-	if (dir == FROM_SERVER && !irccmp(n->info, l->args[0], "NICK") &&
-	   nickattempt && !irccmp(n->info, nickattempt, l->args[1])) {
+	if (dir == FROM_SERVER && !base_strcmp(l->args[0], "NICK") && l->argc > 1 &&
+	   !irccmp(n->info, n->external_state->me.nick, l->args[1])) {
 		nickserv_identify_me(n, l->args[1]);
 	}
 
-	/* Keep track of the last nick that the user tried to take */
-	if (dir == TO_SERVER && !irccmp(n->info, l->args[0], "NICK")) {
-		if (nickattempt) {
-			g_free(nickattempt);
-		}
-		nickattempt = g_strdup(l->args[1]);
-	}
-
-	if (dir == TO_SERVER &&
-		(!irccmp(n->info, l->args[0], "PRIVMSG") || !irccmp(n->info, l->args[0], "NOTICE")) &&
-		(!irccmp(n->info, l->args[1], nickserv_nick(n)) &&
-		 !ircncmp(n->info, l->args[2], "IDENTIFY ", strlen("IDENTIFY ")))) {
-			cache_nickserv_pass(n, l->args[2] + strlen("IDENTIFY "));
+	if (dir == TO_SERVER && l->argc > 2 &&
+		(!base_strcmp(l->args[0], "PRIVMSG") || !base_strcmp(l->args[0], "NOTICE")) &&
+		!irccmp(n->info, l->args[1], nickserv_nick(n))) {
+		learn_nickserv_command(n, l->args[2]);
 	}
 
-	if (dir == TO_SERVER &&
-		!irccmp(n->info, l->args[0], "NS") &&
-		!irccmp(n->info, l->args[1], "IDENTIFY")) {
-		cache_nickserv_pass(n, l->args[2]);
+	if (dir == TO_SERVER && l->argc > 1 && !base_strcmp(l->args[0], "NS")) {
+		char *command = g_strjoinv(" ", l->args + 1);
+		learn_nickserv_command(n, command);
+		g_free(command);
 	}
 
 	/* If we receive a nick-already-in-use message, ghost the current user */
-	if (dir == FROM_SERVER && atol(l->args[0]) == ERR_NICKNAMEINUSE) {
+	if (dir == FROM_SERVER && irc_line_respcode(l) == ERR_NICKNAMEINUSE && l->argc > 2) {
+		const char *nickattempt = l->args[2];
 		const char *pass = nickserv_find_nick(n, nickattempt);
-		if (nickattempt && pass) {
+		if (pass) {
 			const char *nickserv_n = nickserv_nick(n);
 			char *raw;
 
-- 
2.43.0


From 2c966d3b3d3cded55db049e4781b42104640577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 34/88] fix: don't read parameters of messages that have none

---
 src/log_custom.c    | 18 +++++++++---------
 src/repl_backends.c |  3 +++
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 885015a..76427f1 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -119,7 +119,7 @@ static void file_write_target(struct log_custom_data *data,
 		return;
 
 	/* No target, nowhere to log to */
-	if (l->args[1] == NULL)
+	if (l->argc < 2)
 		return;
 
 	info = network_get_info(network);
@@ -141,7 +141,7 @@ static void file_write_channel_only(struct log_custom_data *data,
 				    struct irc_network *network,
 				    const char *fmt, const struct irc_line *l)
 {
-	if (fmt == NULL || l->args[1] == NULL)
+	if (fmt == NULL || l->argc < 2)
 		return;
 
 	file_write_line_target(data, network, fmt, l, l->args[1]);
@@ -215,7 +215,7 @@ static gboolean log_custom_data(struct irc_network *network,
 		file_write_target(data, network, data->config->join, l);
 	} else if (dir == FROM_SERVER && !base_strcmp(l->args[0], "PART")) {
 		file_write_channel_only(data, network, data->config->part, l);
-	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->args[2] != NULL) {
+	} else if (!base_strcmp(l->args[0], "PRIVMSG") && l->argc > 2) {
 		if (l->args[2][0] == '\001') {
 			/* Ignore all other ctcp messages */
 			if (!g_ascii_strncasecmp(l->args[2], "\001ACTION ", 8)) {
@@ -236,24 +236,24 @@ static gboolean log_custom_data(struct irc_network *network,
 		}
 	} else if (!base_strcmp(l->args[0], "NOTICE")) {
 		file_write_target(data, network, data->config->notice, l);
-	} else if (!base_strcmp(l->args[0], "MODE") && l->args[1] != NULL &&
+	} else if (!base_strcmp(l->args[0], "MODE") && l->argc > 1 &&
 			  is_channelname(l->args[1], network_get_info(network)) &&
 			  dir == FROM_SERVER) {
 		file_write_target(data, network, data->config->mode, l);
 	} else if (!base_strcmp(l->args[0], "QUIT")) {
 		file_write_channel_query(data, network, data->config->quit, l);
-	} else if (!base_strcmp(l->args[0], "KICK") && l->args[1] != NULL &&
-			   l->args[2] != NULL && dir == FROM_SERVER) {
+	} else if (!base_strcmp(l->args[0], "KICK") &&
+			   l->argc > 2 && dir == FROM_SERVER) {
 		file_write_channel_only(data, network, data->config->kick, l);
 	} else if (!base_strcmp(l->args[0], "TOPIC") && dir == FROM_SERVER &&
-		l->args[1] != NULL) {
-		if (l->args[2] != NULL) {
+		l->argc > 1) {
+		if (l->argc > 2) {
 			file_write_channel_only(data, network, data->config->topic, l);
 		} else {
 			file_write_channel_only(data, network, data->config->notopic, l);
 		}
 	} else if (!base_strcmp(l->args[0], "NICK") && dir == FROM_SERVER &&
-			   l->args[1] != NULL) {
+			   l->argc > 1) {
 		file_write_channel_query(data, network, data->config->nickchange, l);
 	}
 
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 3c69940..123e7f4 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -34,6 +34,9 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
 
+	if (l->argc < 3)
+		return TRUE;
+
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
 			return client_send_line(c, l, NULL);
-- 
2.43.0


From a25ae0d7db7817bf6de33ad46a3494dcb369f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:51 +0000
Subject: [PATCH 35/88] fix: tell every client about everyone lost when the
 server connection breaks

---
 libirc/client.c | 62 ++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index fdbeda8..ab0b8c4 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -890,33 +890,37 @@ gboolean clients_send_netsplit(GList *clients, const char *my_name,
 			   const char *lost_server)
 {
 	GList *gl;
+	gboolean ret = TRUE;
 	for (gl = clients; gl; gl = gl->next) {
 		struct irc_client *c = gl->data;
 		if (!client_send_netsplit(c, my_name, lost_server)) {
-			return FALSE;
+			ret = FALSE;
 		}
 	}
 
-	return FALSE;
+	return ret;
 }
 
-gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
-			       const char *reason)
+static char *network_nick_quit_hostmask(struct network_nick *gn)
 {
-	gboolean ret;
 	if (gn->hostmask == NULL) {
 		/* Make up a fake hostmask. The user hasn't seen the original hostmask
 		 * of this nick anyway, otherwise we would've known it already.
 		 */
-		char *fake_hostmask = g_strdup_printf("%s!~UNKNOWN@UNKNOWN",
-						      gn->nick);
-		ret = client_send_args_ex(c, fake_hostmask, "QUIT", reason,
-					  NULL);
-		g_free(fake_hostmask);
-	} else {
-		ret = client_send_args_ex(c, gn->hostmask, "QUIT", reason,
-					  NULL);
+		return g_strdup_printf("%s!~UNKNOWN@UNKNOWN", gn->nick);
 	}
+
+	return g_strdup(gn->hostmask);
+}
+
+gboolean client_send_nick_quit(struct irc_client *c, struct network_nick *gn,
+			       const char *reason)
+{
+	gboolean ret;
+	char *hostmask = network_nick_quit_hostmask(gn);
+
+	ret = client_send_args_ex(c, hostmask, "QUIT", reason, NULL);
+	g_free(hostmask);
 	return ret;
 }
 
@@ -925,33 +929,37 @@ gboolean client_send_netsplit(struct irc_client *c, const char *my_name,
 {
 	struct irc_network_state *s = c->state;
 	char *reason;
+	GPtrArray *hostmasks;
+	GList *gl;
+	guint i;
 	gboolean ret = TRUE;
 
 	if (s == NULL) {
 		return FALSE;
 	}
 
-	/* Spoof a netsplit */
-	reason = g_strdup_printf("%s %s", my_name, lost_server);
-
-	while (s->nicks != NULL) {
-		GList *gl = s->nicks;
+	/* Sending the QUITs changes s->nicks, so find out who to send them for
+	 * first. */
+	hostmasks = g_ptr_array_new_with_free_func(g_free);
+	for (gl = s->nicks; gl; gl = gl->next) {
 		struct network_nick *gn = gl->data;
 
 		/* Skip self */
-		if (gn == &s->me) {
-			gl = gl->next;
-			if (gl == NULL)
-				break;
-			gn = gl->data;
-		}
-		ret = client_send_nick_quit(c, gn, reason);
-		if (!ret) {
-			break;
+		if (gn != &s->me) {
+			g_ptr_array_add(hostmasks, network_nick_quit_hostmask(gn));
 		}
 	}
 
+	/* Spoof a netsplit */
+	reason = g_strdup_printf("%s %s", my_name, lost_server);
+
+	for (i = 0; i < hostmasks->len && ret; i++) {
+		ret = client_send_args_ex(c, g_ptr_array_index(hostmasks, i), "QUIT",
+					  reason, NULL);
+	}
+
 	g_free(reason);
+	g_ptr_array_free(hostmasks, TRUE);
 
 	return ret;
 }
-- 
2.43.0


From a31a253318527d9e485b2ac69e7811a7659af876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 36/88] fix: ignore list entries that name no mask

---
 libirc/state.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libirc/state.c b/libirc/state.c
index ec246d3..3f51369 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -1261,11 +1261,11 @@ static struct irc_command {
 	{ "331", 2, handle_no_topic },
 	{ "353", 4, handle_namreply },
 	{ "366", 2, handle_end_names },
-	{ "367", 2, handle_banlist_entry },
+	{ "367", 3, handle_banlist_entry },
 	{ "368", 2, handle_end_banlist },
-	{ "346", 2, handle_invitelist_entry },
+	{ "346", 3, handle_invitelist_entry },
 	{ "347", 2, handle_end_invitelist },
-	{ "348", 2, handle_exceptlist_entry },
+	{ "348", 3, handle_exceptlist_entry },
 	{ "349", 2, handle_end_exceptlist },
 	{ "352", 8, handle_whoreply },
 	{ "315", 1, handle_end_who },
-- 
2.43.0


From ce676f0d7116f4d277bc648fbb5ea3f989bc3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:23 +0000
Subject: [PATCH 37/88] fix: receive logins and SOCKS requests that arrive in
 any fragmentation

---
 libirc/listener.c | 239 ++++++++++++++++++++++++++++++----------------
 libirc/listener.h |  11 +++
 2 files changed, 167 insertions(+), 83 deletions(-)

diff --git a/libirc/listener.c b/libirc/listener.c
index 529f536..b601c5c 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -140,6 +140,11 @@ void log_gssapi(struct irc_listener *l, enum log_level level, const char *messag
 
 gboolean listener_stop(struct irc_listener *l)
 {
+	/* Drop the clients that haven't authenticated yet, they refer to
+	 * the listener. */
+	while (l->pending != NULL)
+		kill_pending_client(l->pending->data);
+
 	while (l->incoming != NULL) {
 		struct listener_iochannel *lio = l->incoming->data;
 
@@ -161,71 +166,88 @@ static gboolean handle_client_detect(GIOChannel *ioc, struct pending_client *pc)
 {
 	GIOStatus status;
 	gsize read;
-	gchar header[2];
+	gchar header;
 	GError *error = NULL;
 
-	status = g_io_channel_read_chars(ioc, header, 1, &read, &error);
+	status = g_io_channel_read_chars(ioc, &header, 1, &read, &error);
 
-	if (status != G_IO_STATUS_NORMAL && status != G_IO_STATUS_AGAIN) {
+	if (status == G_IO_STATUS_AGAIN)
+		return TRUE;
+
+	if (status != G_IO_STATUS_NORMAL) {
 		if (error != NULL)
 			g_error_free(error);
 		return FALSE;
 	}
 
-	if (header[0] == SOCKS_VERSION) {
+	if (header == SOCKS_VERSION) {
 		listener_log(LOG_TRACE, pc->listener, "Detected SOCKS.");
 		pc->type = CLIENT_TYPE_SOCKS;
 		pc->socks.state = SOCKS_STATE_NEW;
-		return TRUE;
-	} else {
-		struct irc_line *l = NULL;
-		gchar *raw = NULL, *cvrt = NULL;
-		gchar *complete;
-		GIOStatus status;
-		gboolean ret;
-		gsize in_len;
-
+	} else if (header != '\r' && header != '\n') {
 		pc->type = CLIENT_TYPE_REGULAR;
+		pc->first_byte = header;
+		pc->first_byte_pending = TRUE;
+	}
 
-		g_assert(ioc != NULL);
+	return TRUE;
+}
 
-		status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
-		if (status != G_IO_STATUS_NORMAL) {
-			g_free(raw);
-			g_error_free(error);
-			return status;
-		}
+/**
+ * Process the first line received from a client, of which the first byte has
+ * already been read.
+ *
+ * @return G_IO_STATUS_AGAIN if the line is not complete yet, G_IO_STATUS_EOF if
+ * the client should be dropped.
+ */
+static GIOStatus handle_client_first_line(GIOChannel *ioc, struct pending_client *pc)
+{
+	struct irc_line *l = NULL;
+	gchar *raw = NULL, *cvrt = NULL;
+	gchar *complete;
+	GError *error = NULL;
+	GIOStatus status;
+	gboolean ret;
+	gsize in_len;
 
-		complete = g_malloc(in_len+2);
-		complete[0] = header[0];
-		memcpy(complete+1, raw, in_len);
-		complete[in_len+1] = '\0';
+	status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
+	if (status != G_IO_STATUS_NORMAL) {
 		g_free(raw);
+		if (error != NULL)
+			g_error_free(error);
+		return status;
+	}
+
+	pc->first_byte_pending = FALSE;
 
-		if (pc->listener->iconv == (GIConv)-1) {
+	complete = g_malloc(in_len+2);
+	complete[0] = pc->first_byte;
+	memcpy(complete+1, raw, in_len);
+	complete[in_len+1] = '\0';
+	g_free(raw);
+
+	if (pc->listener->iconv == (GIConv)-1) {
+		cvrt = complete;
+	} else {
+		cvrt = g_convert_with_iconv(complete, -1, pc->listener->iconv, NULL, NULL, &error);
+		if (cvrt == NULL) {
 			cvrt = complete;
+			if (error != NULL)
+				g_error_free(error);
 		} else {
-			cvrt = g_convert_with_iconv(complete, -1, pc->listener->iconv, NULL, NULL, &error);
-			if (cvrt == NULL) {
-				cvrt = complete;
-				status = G_IO_STATUS_ERROR;
-				if (error != NULL)
-					g_error_free(error);
-			} else {
-				g_free(complete);
-			}
+			g_free(complete);
 		}
+	}
 
-		l = irc_parse_line(cvrt);
+	l = irc_parse_line(cvrt);
 
-		ret = pc->listener->ops->handle_client_line(pc, l);
+	ret = pc->listener->ops->handle_client_line(pc, l);
 
-		free_line(l);
+	free_line(l);
 
-		g_free(cvrt);
+	g_free(cvrt);
 
-		return ret;
-	}
+	return ret ? G_IO_STATUS_NORMAL : G_IO_STATUS_EOF;
 }
 
 static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpointer data)
@@ -241,11 +263,15 @@ static gboolean handle_client_receive(GIOChannel *c, GIOCondition condition, gpo
 				return FALSE;
 			}
 		} else if (pc->type == CLIENT_TYPE_REGULAR) {
-			GIOStatus status;
+			GIOStatus status = G_IO_STATUS_NORMAL;
 			GError *error = NULL;
 			struct irc_line *l;
 
-			while ((status = irc_recv_line(c, pc->listener->iconv, &error, &l)) == G_IO_STATUS_NORMAL) {
+			if (pc->first_byte_pending)
+				status = handle_client_first_line(c, pc);
+
+			while (status == G_IO_STATUS_NORMAL &&
+				   (status = irc_recv_line(c, pc->listener->iconv, &error, &l)) == G_IO_STATUS_NORMAL) {
 				gboolean ret;
 
 				if (l == NULL)
@@ -362,7 +388,7 @@ void listener_add_iochannel(struct irc_listener *l, GIOChannel *ioc,
 	else
 		strncpy(lio->address, address, NI_MAXHOST);
 	if (port == NULL)
-		strcpy(lio->address, "");
+		strcpy(lio->port, "");
 	else
 		strncpy(lio->port, port, NI_MAXSERV);
 
@@ -424,7 +450,6 @@ gboolean listener_start_tcp(struct irc_listener *l, const char *address, const c
 		if (sock < 0) {
 			listener_log(LOG_ERROR, l, "error creating socket: %s",
 						 strerror(errno));
-			close(sock);
 			continue;
 		}
 
@@ -484,7 +509,8 @@ gboolean listener_socks_reply(struct pending_client *pc, guint8 err, guint8 atyp
 	header[2] = 0x0; /* Reserved */
 	header[3] = atyp;
 	memcpy(header+4, data, data_len);
-	*((guint16 *)(header+4+data_len)) = htons(port);
+	header[4 + data_len] = port >> 8;
+	header[4 + data_len + 1] = port & 0xff;
 
 	status = g_io_channel_write_chars(pc->connection, header,
 									  6 + data_len, &read, NULL);
@@ -545,19 +571,48 @@ static gboolean on_socks_pass_accepted(struct pending_client *cl, gboolean accep
 	}
 }
 
+/**
+ * Make sure that at least the first len bytes of the current SOCKS message have
+ * been received. No more than that is read from the connection.
+ *
+ * @return G_IO_STATUS_NORMAL if the bytes are there, G_IO_STATUS_AGAIN if
+ *         some have yet to arrive
+ */
+static GIOStatus socks_fill_buffer(struct pending_client *cl, gsize len)
+{
+	g_assert(len <= sizeof(cl->socks.buffer));
+
+	while (cl->socks.buffer_len < len) {
+		gsize read = 0;
+		GIOStatus status;
+
+		status = g_io_channel_read_chars(cl->connection,
+										 (gchar *)cl->socks.buffer + cl->socks.buffer_len,
+										 len - cl->socks.buffer_len, &read, NULL);
+		cl->socks.buffer_len += read;
+		if (status != G_IO_STATUS_NORMAL)
+			return status;
+	}
+
+	return G_IO_STATUS_NORMAL;
+}
+
 static gboolean pass_handle_data(struct pending_client *cl)
 {
-	gchar header[2];
-	gsize read;
-	gboolean accepted;
+	const guint8 *buffer = cl->socks.buffer;
+	guint8 header[1];
+	guint8 uname_len, pass_len;
+	gboolean ret;
 	GIOStatus status;
-	gchar uname[0x100], pass[0x100];
+	gchar *uname, *pass;
 
-	status = g_io_channel_read_chars(cl->connection, header, 2, &read, NULL);
+	status = socks_fill_buffer(cl, 2);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
+	header[0] = buffer[0];
+
 	if (header[0] != SOCKS_VERSION && header[0] != 0x1) {
 		listener_log(LOG_WARNING, cl->listener,
 					 "Client suddenly changed socks uname/pwd version to %x",
@@ -565,29 +620,31 @@ static gboolean pass_handle_data(struct pending_client *cl)
 	 	return listener_socks_error(cl, REP_GENERAL_FAILURE);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, uname, header[1], &read,
-									 NULL);
+	uname_len = buffer[1];
+
+	status = socks_fill_buffer(cl, 2 + uname_len + 1);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	uname[(guint8)header[1]] = '\0';
+	pass_len = buffer[2 + uname_len];
 
-	status = g_io_channel_read_chars(cl->connection, header, 1, &read, NULL);
+	status = socks_fill_buffer(cl, 2 + uname_len + 1 + pass_len);
 	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
+		return (status == G_IO_STATUS_AGAIN);
 	}
 
-	status = g_io_channel_read_chars(cl->connection, pass, header[0], &read, NULL);
-	if (status != G_IO_STATUS_NORMAL) {
-		return FALSE;
-	}
+	uname = g_strndup((const gchar *)buffer + 2, uname_len);
+	pass = g_strndup((const gchar *)buffer + 2 + uname_len + 1, pass_len);
+	cl->socks.buffer_len = 0;
 
-	pass[(guint8)header[0]] = '\0';
+	ret = cl->listener->ops->socks_auth_simple(cl, uname, pass,
+											   on_socks_pass_accepted);
 
-	accepted = cl->listener->ops->socks_auth_simple(cl, uname, pass,
-													on_socks_pass_accepted);
-	return TRUE;
+	g_free(uname);
+	g_free(pass);
+
+	return ret;
 }
 
 #ifdef HAVE_GSSAPI
@@ -634,7 +691,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "importing principal name",
 				   major_status, minor_status);
-		gssapi_fail(pc);
 		return FALSE;
 	}
 
@@ -645,8 +701,6 @@ static gboolean gssapi_acceptable (struct pending_client *pc)
 	if (GSS_ERROR(major_status)) {
 		log_gssapi(l, LOG_ERROR, "acquiring service credentials",
 				   major_status, minor_status);
-		gssapi_fail(pc);
-
 		return FALSE;
 	}
 
@@ -800,22 +854,26 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	if (cl->socks.state == SOCKS_STATE_NEW) {
 		int i;
 		gchar header[2];
-		gchar methods[0x100];
+		const guint8 *methods = cl->socks.buffer + 1;
+		guint8 num_methods;
 		gsize read;
-		status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
+
+		status = socks_fill_buffer(cl, 1);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
+		num_methods = cl->socks.buffer[0];
+
 		/* None by default */
 		cl->socks.method = NULL;
 
-		status = g_io_channel_read_chars(ioc, methods, header[0], &read, NULL);
+		status = socks_fill_buffer(cl, 1 + num_methods);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
-		for (i = 0; i < header[0]; i++) {
+		for (i = 0; i < num_methods; i++) {
 			int j;
 			for (j = 0; socks_methods[j].id != -1; j++)
 			{
@@ -828,6 +886,8 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			}
 		}
 
+		cl->socks.buffer_len = 0;
+
 		header[0] = SOCKS_VERSION;
 		header[1] = cl->socks.method?cl->socks.method->id:SOCKS_METHOD_NOACCEPTABLE;
 
@@ -853,12 +913,11 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 	} else if (cl->socks.state == SOCKS_STATE_AUTH) {
 		return cl->socks.method->handle_data(cl);
 	} else if (cl->socks.state == SOCKS_STATE_NORMAL) {
-		gchar header[4];
-		gsize read;
+		const guint8 *header = cl->socks.buffer;
 
-		status = g_io_channel_read_chars(ioc, header, 4, &read, NULL);
+		status = socks_fill_buffer(cl, 4);
 		if (status != G_IO_STATUS_NORMAL) {
-			return FALSE;
+			return (status == G_IO_STATUS_AGAIN);
 		}
 
 		if (header[0] != SOCKS_VERSION) {
@@ -887,13 +946,27 @@ static gboolean handle_client_socks_data(GIOChannel *ioc, struct pending_client
 			case ATYP_FQDN:
 				{
 					char hostname[0x100];
+					guint8 hostname_len;
 					guint16 port;
-					status = g_io_channel_read_chars(ioc, header, 1, &read, NULL);
-					status = g_io_channel_read_chars(ioc, hostname, header[0], &read, NULL);
-					hostname[(guint8)header[0]] = '\0';
 
-					status = g_io_channel_read_chars(ioc, header, 2, &read, NULL);
-					port = ntohs(*(guint16 *)header);
+					status = socks_fill_buffer(cl, 5);
+					if (status != G_IO_STATUS_NORMAL) {
+						return (status == G_IO_STATUS_AGAIN);
+					}
+
+					hostname_len = header[4];
+
+					status = socks_fill_buffer(cl, 5 + hostname_len + 2);
+					if (status != G_IO_STATUS_NORMAL) {
+						return (status == G_IO_STATUS_AGAIN);
+					}
+
+					memcpy(hostname, header + 5, hostname_len);
+					hostname[hostname_len] = '\0';
+
+					port = (header[5 + hostname_len] << 8) | header[5 + hostname_len + 1];
+
+					cl->socks.buffer_len = 0;
 
 					if (cl->listener->ops->socks_connect_fqdn == NULL)
 						return listener_socks_error(cl, REP_ATYP_NOT_SUPPORTED);
diff --git a/libirc/listener.h b/libirc/listener.h
index 3efb6b1..3fef5b0 100644
--- a/libirc/listener.h
+++ b/libirc/listener.h
@@ -67,6 +67,9 @@ enum client_type {
 
 struct socks_method;
 
+/* Size of the largest SOCKS message: user name/password authentication */
+#define SOCKS_MAX_MESSAGE (3 + 2 * 0xff)
+
 enum socks_state {
 	SOCKS_UNKNOWN = 0,
 	SOCKS_STATE_NEW = 1,
@@ -99,10 +102,18 @@ struct pending_client {
 
 	struct listener_iochannel *iochannel;
 
+	/** First byte received, used for detecting the type of client but
+	 * not processed yet. */
+	gchar first_byte;
+	gboolean first_byte_pending;
+
 	/** Socks state. */
 	struct {
 		struct socks_method *method;
 		enum socks_state state;
+		/** Message received so far. */
+		guint8 buffer[SOCKS_MAX_MESSAGE];
+		gsize buffer_len;
 		void *method_data;
 	} socks;
 
-- 
2.43.0


From ddf99f385c11d1c2c708868b3299d8c9494b40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:23 +0000
Subject: [PATCH 38/88] fix: check passwords with colons and allow rules
 without falling back to no authentication

---
 src/listener.c | 63 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/listener.c b/src/listener.c
index 0dd2133..78e76b4 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -55,6 +55,8 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 {
 	GList *gl;
 
+	gboolean have_rules = FALSE;
+
 	if (listener->config != NULL) {
 		for (gl = listener->config->allow_rules; gl; gl = gl->next)
 		{
@@ -63,7 +65,9 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 			if (r->password == NULL || r->username == NULL)
 				continue;
 
-			if (strcmp(r->username, username))
+			have_rules = TRUE;
+
+			if (username == NULL || strcmp(r->username, username))
 				continue;
 
 			if (strcmp(r->password, password))
@@ -81,6 +85,9 @@ static gboolean listener_check_username_password(struct irc_listener *listener,
 		return (strcmp(listener->global->config->password, password) == 0);
 	}
 
+	if (have_rules)
+		return FALSE;
+
 	listener_log(LOG_WARNING, listener, "No password set, allowing client _without_ authentication!");
 	return TRUE;
 }
@@ -131,13 +138,13 @@ gboolean default_socks_connect_fqdn (struct pending_client *cl, const char *host
 			atyp = ATYP_IPV4;
 			data = (gchar *)&name4->sin_addr;
 			len = 4;
-			port = name4->sin_port;
+			port = ntohs(name4->sin_port);
 		} else if (name != NULL && name->sa_family == AF_INET6) {
 			struct sockaddr_in6 *name6 = (struct sockaddr_in6 *)name;
 			atyp = ATYP_IPV6;
 			data = (gchar *)&name6->sin6_addr;
 			len = 16;
-			port = name6->sin6_port;
+			port = ntohs(name6->sin6_port);
 		} else {
 			network_log(LOG_ERROR, result, "Unable to obtain local address for connection to server");
 			return listener_socks_error(cl, REP_NET_UNREACHABLE);
@@ -150,6 +157,7 @@ gboolean default_socks_connect_fqdn (struct pending_client *cl, const char *host
 		data[0] = strlen(data+1);
 
 		listener_socks_reply(cl, REP_OK, ATYP_FQDN, data[0]+1, data, 1025);
+		g_free(data);
 	}
 
 	desc = g_io_channel_ip_get_description(cl->connection);
@@ -198,20 +206,29 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		const char *networkname = NULL;
 		struct irc_network *n = listener->network;
 		gboolean authenticated = FALSE;
-		char *actual_password;
+		const char *p;
 
-		if (strchr(l->args[1], ':') != NULL) {
-			char *p = strchr(l->args[1], ':');
-			actual_password = g_strndup(l->args[1], p-l->args[1]);
-			networkname = p+1;
-		} else {
-			actual_password = g_strdup(l->args[1]);
-			networkname = NULL;
+		if (l->argc < 2) {
+			irc_sendf(pc->connection, listener->iconv, NULL,
+					  ":%s %d %s %s :Not enough parameters",
+					  get_my_hostname(), ERR_NEEDMOREPARAMS, "*", l->args[0]);
+			g_io_channel_flush(pc->connection, NULL);
+			return TRUE;
 		}
 
-		authenticated = listener_check_username_password(listener, NULL, actual_password);
+		/* The password may contain colons itself */
+		for (p = strchr(l->args[1], ':'); p != NULL && !authenticated;
+			 p = strchr(p+1, ':')) {
+			char *actual_password = g_strndup(l->args[1], p-l->args[1]);
+			networkname = p+1;
+			authenticated = listener_check_username_password(listener, NULL, actual_password);
+			g_free(actual_password);
+		}
 
-		g_free(actual_password);
+		if (!authenticated) {
+			networkname = NULL;
+			authenticated = listener_check_username_password(listener, NULL, l->args[1]);
+		}
 
 		if (authenticated) {
 			listener_log(LOG_INFO, listener, "Client successfully authenticated");
@@ -245,10 +262,12 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 
 			{
 				char *desc = g_io_channel_ip_get_description(pc->connection);
-				if (pc->listener == pc->listener->global->unix_domain_socket_listener)
-					desc = g_strdup("Unix domain socket client");
-				else if (desc == NULL)
-					desc = g_strdup("");
+				if (desc == NULL) {
+					if (pc->listener == pc->listener->global->unix_domain_socket_listener)
+						desc = g_strdup("Unix domain socket client");
+					else
+						desc = g_strdup("");
+				}
 				client_init_iochannel(n, pc->connection, desc);
 				g_free(desc);
 			}
@@ -394,17 +413,25 @@ gboolean start_unix_domain_socket_listener(struct global *global)
 	}
 
 	un.sun_family = AF_UNIX;
-	strncpy(un.sun_path, global->config->network_socket, sizeof(un.sun_path));
+	if (strlen(global->config->network_socket) >= sizeof(un.sun_path)) {
+		log_global(LOG_ERROR, "path to unix socket %s is too long", global->config->network_socket);
+		close(sock);
+		g_free(l);
+		return FALSE;
+	}
+	strcpy(un.sun_path, global->config->network_socket);
 	unlink(un.sun_path);
 
 	if (bind(sock, (struct sockaddr *)&un, sizeof(un)) < 0) {
 		log_global(LOG_ERROR, "unable to bind to %s: %s", un.sun_path, strerror(errno));
+		close(sock);
 		g_free(l);
 		return FALSE;
 	}
 
 	if (listen(sock, 5) < 0) {
 		log_global(LOG_ERROR, "error listening on socket: %s", strerror(errno));
+		close(sock);
 		g_free(l);
 		return FALSE;
 	}
-- 
2.43.0


From a3423f1b162c7ed57b88ea6a2ff4ecbf3f678f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 39/88] fix: survive unusual administration commands and report
 those that fail

---
 src/admin.c | 257 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 208 insertions(+), 49 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index a750e9e..815fdfd 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -60,18 +60,14 @@ static void privmsg_admin_out(admin_handle h, const char *data)
 {
 	struct irc_client *c = h->client;
 	struct irc_network *n = h->network;
-	char *nick = c->state->me.nick;
+	const char *nick = c->state->me.nick;
 	char *hostmask;
 
 	hostmask = admin_hostmask(n);
 	if (n->external_state != NULL) {
 		nick = n->external_state->me.nick;
 	}
-	if (c != NULL) {
-		client_send_args_ex(c, hostmask, "NOTICE", nick, data, NULL);
-	} else {
-		virtual_network_recv_args(n, hostmask, "NOTICE", nick, data, NULL);
-	}
+	client_send_args_ex(c, hostmask, "NOTICE", nick, data, NULL);
 
 	g_free(hostmask);
 }
@@ -256,7 +252,8 @@ static void cmd_connect_network (admin_handle h, const char * const *args, void
 	switch (s->connection.state) {
 		case NETWORK_CONNECTION_STATE_NOT_CONNECTED:
 			admin_out(h, "Connecting to `%s'", args[1]);
-			connect_network(s);
+			if (!connect_network(s))
+				admin_out(h, "Unable to connect to `%s'", args[1]);
 			break;
 		case NETWORK_CONNECTION_STATE_RECONNECT_PENDING:
 			admin_out(h, "Forcing reconnect to `%s'", args[1]);
@@ -327,6 +324,8 @@ static void cmd_next_server (admin_handle h, const char * const *args, void *use
 	}
 	if (!n) {
 		admin_out(h, "%s: Not connected", name);
+	} else if (((struct network_config *)n->private_data)->type == NETWORK_VIRTUAL) {
+		admin_out(h, "%s: Network has no servers", name);
 	} else {
 		admin_out(h, "%s: Reconnecting", name);
 		disconnect_network(n);
@@ -350,11 +349,27 @@ static void cmd_save_config (admin_handle h, const char * const *args, void *use
 	admin_out(h, "Configuration saved in %s", adm_dir);
 }
 
+/**
+ * Check whether a string can be used as the name of a network. The name is used
+ * as the name of files and of sections in the configuration file.
+ */
+static gboolean valid_network_name(const char *name)
+{
+	return name[0] != '\0' && name[0] != '.' &&
+		name[strlen(name)-1] != '~' && strpbrk(name, "/[]") == NULL &&
+		g_utf8_validate(name, -1, NULL) && strcmp(name, "global") != 0;
+}
+
 static void add_network_helper(admin_handle h, const char *name)
 {
 	struct network_config *nc;
 	struct irc_network *n;
 
+	if (!valid_network_name(name)) {
+		admin_out(h, "Invalid network name `%s'", name);
+		return;
+	}
+
 	if (find_network(admin_get_global(h)->networks, name) != NULL) {
 		admin_out(h, "Network with name `%s' already exists", name);
 		return;
@@ -373,6 +388,12 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 								  const char *newname)
 {
 	struct irc_network *n;
+	struct network_config *nc;
+
+	if (!valid_network_name(newname)) {
+		admin_out(h, "Invalid network name `%s'", newname);
+		return;
+	}
 
 	n = find_network(admin_get_global(h)->networks, oldname);
 
@@ -386,18 +407,35 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		return;
 	}
 
+	nc = n->private_data;
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
+
+	g_free(nc->name);
+	nc->name = g_strdup(newname);
+
+	admin_out(h, "Network `%s' renamed to `%s'", oldname, newname);
 }
 
 static void del_network_helper(admin_handle h, const char *name)
 {
 	struct irc_network *n = find_network(admin_get_global(h)->networks, name);
+	struct network_config *nc;
+
 	if (n == NULL) {
 		admin_out(h, "No such network `%s'", name);
 		return;
 	}
 
+	nc = n->private_data;
+	if (nc->type == NETWORK_VIRTUAL &&
+		n->connection.data.virtual.ops != NULL &&
+		n->connection.data.virtual.ops->not_disconnectable) {
+		admin_out(h, "Built-in network `%s' can't be deleted", name);
+		return;
+	}
+
 	disconnect_network(n);
 
 	unload_network(n);
@@ -457,7 +495,8 @@ static void list_networks_helper(admin_handle h)
 			admin_out(h, "%s: Connected, logging in", n->name);
 			break;
 		case NETWORK_CONNECTION_STATE_NOT_CONNECTED:
-			if (n->connection.data.tcp.last_disconnect_reason)
+			if (((struct network_config *)n->private_data)->type == NETWORK_TCP &&
+				n->connection.data.tcp.last_disconnect_reason)
 				admin_out(h, "%s: Not connected: %s", n->name,
 						  n->connection.data.tcp.last_disconnect_reason);
 			else
@@ -654,10 +693,28 @@ static char *logging_get(admin_handle h)
 static gboolean logging_set(admin_handle h, const char *value)
 {
 	/* FIXME: Implement */
+	admin_out(h, "The logging settings can't be changed at run time.");
 
 	return FALSE;
 }
 
+static gboolean interpret_int(admin_handle h, const char *value, int *ret)
+{
+	char *end;
+	long x;
+
+	errno = 0;
+	x = strtol(value, &end, 10);
+	if (value[0] == '\0' || *end != '\0' || errno != 0 ||
+		x < G_MININT || x > G_MAXINT) {
+		admin_out(h, "Invalid number `%s'", value);
+		return FALSE;
+	}
+
+	*ret = x;
+	return TRUE;
+}
+
 static char *log_level_get(admin_handle h)
 {
 	extern enum log_level current_log_level;
@@ -671,10 +728,14 @@ static gboolean log_level_set(admin_handle h, const char *value)
 	int x;
 
 	if (value == NULL) {
+		admin_out(h, "The log level can't be unset.");
+		return FALSE;
+	}
+
+	if (!interpret_int(h, value, &x)) {
 		return FALSE;
 	}
 
-	x = atoi(value);
 	if (x < 0 || x > 5) {
 		admin_out(h, "Invalid log level %d", x);
 		return FALSE;
@@ -707,7 +768,16 @@ static void cmd_charset(admin_handle h, const char * const *args, void *userdata
 
 static void cmd_echo(admin_handle h, const char * const *args, void *userdata)
 {
-	admin_out(h, "%s", args[1]);
+	char *text;
+
+	if (args[1] == NULL) {
+		admin_out(h, "No text specified");
+		return;
+	}
+
+	text = g_strjoinv(" ", (char **)args+1);
+	admin_out(h, "%s", text);
+	g_free(text);
 }
 
 static gint cmp_cmd(gconstpointer a, gconstpointer b)
@@ -742,6 +812,7 @@ gboolean process_cmd(admin_handle h, const char *cmd)
 
 	if (!args[0]) {
 		admin_out(h, "Please specify a command. Use the 'help' command to get a list of available commands");
+		g_strfreev(args);
 		return TRUE;
 	}
 
@@ -818,12 +889,25 @@ static gboolean admin_net_init(struct irc_network *n)
 
 static gboolean admin_to_server (struct irc_network *n, struct irc_client *c, const struct irc_line *l)
 {
+	if (l->argc < 2 && (!base_strcmp(l->args[0], "WHO") ||
+						!base_strcmp(l->args[0], "JOIN") ||
+						!base_strcmp(l->args[0], "PART") ||
+						!base_strcmp(l->args[0], "WHOIS"))) {
+		virtual_network_recv_response(n, ERR_NEEDMOREPARAMS, l->args[0], "Not enough params", NULL);
+		return TRUE;
+	}
+
 	if (!base_strcmp(l->args[0], "PRIVMSG") ||
 		!base_strcmp(l->args[0], "NOTICE")) {
 		struct admin_handle ah;
 
-		if (irccmp(n->external_state->info, l->args[0], n->external_state->me.nick) == 0) {
-			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], NULL);
+		if (l->argc < 2) {
+			virtual_network_recv_response(n, ERR_NORECIPIENT, "No recipient given", NULL);
+			return TRUE;
+		}
+
+		if (irccmp(n->external_state->info, l->args[1], n->external_state->me.nick) == 0) {
+			virtual_network_recv_args(n, n->external_state->me.hostmask, l->args[0], l->args[1], l->args[2], NULL);
 			return TRUE;
 		}
 
@@ -974,7 +1058,7 @@ void admin_log(enum log_level level, const struct irc_network *n, const struct i
 		return;
 	}
 
-	if (level < LOG_INFO) {
+	if (level > LOG_INFO) {
 		return;
 	}
 
@@ -1029,38 +1113,49 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 		return;
 	}
 
+	if (args[3] != NULL &&
+		find_network(admin_get_global(h)->networks, args[3]) == NULL) {
+		admin_out(h, "No such network `%s`", args[3]);
+		return;
+	}
+
 	cfg = g_new0(struct listener_config, 1);
 
 	b = g_strdup(args[1]);
-	if ((p = strchr(b, ':'))) {
+	if ((p = strrchr(b, ':'))) {
 		*p = '\0';
 		p++;
-		cfg->address = b;
+		cfg->address = g_strdup(b);
 		cfg->port = g_strdup(p);
 	} else {
 		cfg->port = g_strdup(b);
 		cfg->address = NULL;
 	}
+	g_free(b);
 
-	if (args[3]) {
-		cfg->network = g_strdup(args[3]);
-		if (find_network(admin_get_global(h)->networks, args[3]) == NULL) {
-			admin_out(h, "No such network `%s`", args[3]);
-			return;
-		}
-	}
-
+	cfg->network = g_strdup(args[3]);
 	cfg->password = g_strdup(args[2]);
 
 	l = listener_init(admin_get_global(h), cfg);
 	l->global = admin_get_global(h);
 
-	listener_start_tcp(l, l->config->address, l->config->port);
+	if (!listener_start_tcp(l, l->config->address, l->config->port)) {
+		admin_out(h, "Unable to listen on %s", args[1]);
+		free_listener(l);
+		g_free(cfg->address);
+		g_free(cfg->port);
+		g_free(cfg->network);
+		g_free(cfg->password);
+		g_free(cfg);
+		return;
+	}
+
+	admin_out(h, "Listening on %s", args[1]);
 }
 
 static void cmd_stop_listener(admin_handle h, const char * const *args, void *userdata)
 {
-	GList *gl;
+	GList *gl, *next;
 	char *b, *p;
 	int i = 0;
 
@@ -1070,7 +1165,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 	}
 
 	b = g_strdup(args[1]);
-	if ((p = strchr(b, ':'))) {
+	if ((p = strrchr(b, ':'))) {
 		*p = '\0';
 		p++;
 	} else {
@@ -1078,9 +1173,15 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 		b = NULL;
 	}
 
-	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
+	for (gl = admin_get_global(h)->listeners; gl; gl = next) {
 		struct irc_listener *l = gl->data;
 
+		next = gl->next;
+
+		if (l->config == NULL || l->config->port == NULL) {
+			continue;
+		}
+
 		if (b && l->config->address == NULL) {
 			continue;
 		}
@@ -1110,6 +1211,10 @@ static void cmd_list_listener(admin_handle h, const char * const *args, void *us
 	for (gl = admin_get_global(h)->listeners; gl; gl = gl->next) {
 		struct irc_listener *l = gl->data;
 
+		if (l->config == NULL || l->config->port == NULL) {
+			continue;
+		}
+
 		admin_out(h, "%s:%s%s%s%s", l->config->address?l->config->address:"", l->config->port,
 				  l->network?" (":"", l->network?l->network->name:"",
 				  l->network?")":"");
@@ -1120,7 +1225,7 @@ static gboolean motd_file_set(admin_handle h, const char *name)
 {
 	struct global *g = admin_get_global(h);
 
-	if (!g_file_test(name, G_FILE_TEST_EXISTS)) {
+	if (name != NULL && !g_file_test(name, G_FILE_TEST_EXISTS)) {
 		admin_out(h, "%s: file does not exist", name);
 		return FALSE;
 	}
@@ -1194,7 +1299,7 @@ static gboolean report_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (!strcasecmp(value, "never") || !strcasecmp(value, "false")) {
+	if (value == NULL || !strcasecmp(value, "never") || !strcasecmp(value, "false")) {
 		g->config->report_time = REPORT_TIME_NEVER;
 	} else if (!strcasecmp(value, "always")) {
 		g->config->report_time = REPORT_TIME_ALWAYS;
@@ -1202,6 +1307,7 @@ static gboolean report_time_set(admin_handle h, const char *value)
 			  !strcasecmp(value, "true")) {
 		g->config->report_time = REPORT_TIME_REPLICATION;
 	} else {
+		admin_out(h, "Invalid value `%s', expected never, always or replication", value);
 		return FALSE;
 	}
 
@@ -1242,7 +1348,7 @@ static gboolean admin_user_set(admin_handle h, const char *value)
 	struct global *g = admin_get_global(h);
 
 	g_free(g->config->admin_user);
-	if (strlen(value) == 0) {
+	if (value != NULL && strlen(value) > 0) {
 		/* FIXME: Check whether value is a somewhat valid IRC nick? */
 		g->config->admin_user = g_strdup(value);
 	} else {
@@ -1269,16 +1375,19 @@ static gboolean max_who_age_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->cache.max_who_age = (value == NULL?0:atoi(value));
+	if (value == NULL) {
+		g->config->cache.max_who_age = 0;
+		return TRUE;
+	}
 
-	return TRUE;
+	return interpret_int(h, value, &g->config->cache.max_who_age);
 }
 
 static char *auto_away_time_get(admin_handle h)
 {
 	struct global *g = admin_get_global(h);
 
-	if (g->config->auto_away.max_idle_time == 0) {
+	if (g->config->auto_away.max_idle_time == -1) {
 		return NULL;
 	}
 
@@ -1289,11 +1398,14 @@ static gboolean auto_away_time_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->auto_away.max_idle_time = (value == NULL?-1:atoi(value));
-
 	/* FIXME: Restart auto-away */
 
-	return TRUE;
+	if (value == NULL) {
+		g->config->auto_away.max_idle_time = -1;
+		return TRUE;
+	}
+
+	return interpret_int(h, value, &g->config->auto_away.max_idle_time);
 }
 
 static char *auto_away_enable_get(admin_handle h)
@@ -1350,6 +1462,10 @@ static char *auto_away_client_limit_get(admin_handle h)
 {
 	struct global *g = admin_get_global(h);
 
+	if (g->config->auto_away.client_limit == -1) {
+		return NULL;
+	}
+
 	return g_strdup_printf("%d", g->config->auto_away.client_limit);
 }
 
@@ -1357,9 +1473,12 @@ static gboolean auto_away_client_limit_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->auto_away.client_limit = (value == NULL?-1:atoi(value));
+	if (value == NULL) {
+		g->config->auto_away.client_limit = -1;
+		return TRUE;
+	}
 
-	return TRUE;
+	return interpret_int(h, value, &g->config->auto_away.client_limit);
 }
 
 static char *report_time_offset_get(admin_handle h)
@@ -1377,9 +1496,12 @@ static gboolean report_time_offset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	g->config->report_time_offset = (value == NULL?0:atoi(value));
+	if (value == NULL) {
+		g->config->report_time_offset = 0;
+		return TRUE;
+	}
 
-	return TRUE;
+	return interpret_int(h, value, &g->config->report_time_offset);
 }
 
 static char *port_get(admin_handle h)
@@ -1410,11 +1532,18 @@ static gboolean port_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			if (value == NULL) {
+				admin_out(h, "The port can't be unset.");
+				return FALSE;
+			}
+
+			g_free(l->port);
 			l->port = g_strdup(value);
 			return TRUE;
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
 	return FALSE;
 }
 
@@ -1446,11 +1575,13 @@ static gboolean bind_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->address);
 			l->address = g_strdup(value);
 			return TRUE;
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
 	return FALSE;
 }
 
@@ -1482,11 +1613,13 @@ static gboolean password_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->password);
 			l->password = g_strdup(value);
 			return TRUE;
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
 	return FALSE;
 }
 
@@ -1518,11 +1651,13 @@ static gboolean default_network_set(admin_handle h, const char *value)
 		struct listener_config *l = gl->data;
 
 		if (l->is_default) {
+			g_free(l->network);
 			l->network = g_strdup(value);
 			return TRUE;
 		}
 	}
 
+	admin_out(h, "There is no default listener.");
 	return FALSE;
 }
 
@@ -1537,6 +1672,18 @@ static gboolean default_client_charset_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
+	if (value != NULL) {
+		GIConv tmp = g_iconv_open(value, "UTF-8");
+
+		if (tmp == (GIConv)-1) {
+			admin_out(h, "Unknown character set `%s'", value);
+			return FALSE;
+		}
+
+		g_iconv_close(tmp);
+	}
+
+	g_free(g->config->client_charset);
 	g->config->client_charset = g_strdup(value);
 
 	return TRUE;
@@ -1551,7 +1698,7 @@ static char *default_nick_get(admin_handle h)
 static gboolean default_nick_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Nick name can't be empty.");
 		return FALSE;
 	}
@@ -1579,7 +1726,7 @@ static char *default_username_get(admin_handle h)
 static gboolean default_username_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Username can't be empty.");
 		return FALSE;
 	}
@@ -1608,7 +1755,7 @@ static gboolean default_fullname_set(admin_handle h, const char *value)
 {
 	struct global *g = admin_get_global(h);
 
-	if (strlen(value) == 0) {
+	if (value == NULL || strlen(value) == 0) {
 		admin_out(h, "Fullname can't be empty");
 		return FALSE;
 	}
@@ -1666,8 +1813,11 @@ static void cmd_unset(admin_handle h, const char * const *args, void *userdata)
 	for (i = 0; settings[i].name; i++) {
 		if (!strcasecmp(settings[i].name, args[1])) {
 			settings[i].set(h, NULL);
+			return;
 		}
 	}
+
+	admin_out(h, "Unknown setting `%s'", args[1]);
 }
 
 static void cmd_set(admin_handle h, const char * const *args, void *userdata)
@@ -1679,7 +1829,7 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name != NULL; i++) {
 			tmp = settings[i].get(h);
 			if (tmp == NULL) {
-				admin_out(h, "%s is not set", settings[i]);
+				admin_out(h, "%s is not set", settings[i].name);
 			} else {
 				admin_out(h, "%s = %s", settings[i].name, tmp);
 			}
@@ -1689,10 +1839,16 @@ static void cmd_set(admin_handle h, const char * const *args, void *userdata)
 		for (i = 0; settings[i].name; i++) {
 			if (!strcasecmp(settings[i].name, args[1])) {
 				if (args[2] != NULL) {
-					settings[i].set(h, args[2]);
+					tmp = g_strjoinv(" ", (char **)args+2);
+					settings[i].set(h, tmp);
+					g_free(tmp);
 				} else {
 					tmp = settings[i].get(h);
-					admin_out(h, "%s", tmp);
+					if (tmp == NULL) {
+						admin_out(h, "%s is not set", settings[i].name);
+					} else {
+						admin_out(h, "%s", tmp);
+					}
 					g_free(tmp);
 				}
 				return;
@@ -1787,14 +1943,13 @@ static gboolean handle_client_data(GIOChannel *channel,
 	struct admin_handle ah;
 	gsize eol;
 
+	memset(&ah, 0, sizeof(ah));
 	ah.global = _global;
-	ah.client = NULL;
 	ah.user_data = channel;
 	ah.send_fn = iochannel_admin_out;
 
 	if (condition & G_IO_IN) {
-		status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error);
-		if (status == G_IO_STATUS_NORMAL) {
+		while ((status = g_io_channel_read_line(channel, &raw, NULL, &eol, &error)) == G_IO_STATUS_NORMAL) {
 			raw[eol] = '\0';
 			process_cmd(&ah, raw);
 			g_free(raw);
@@ -1803,6 +1958,10 @@ static gboolean handle_client_data(GIOChannel *channel,
 		if (error != NULL) {
 			g_error_free(error);
 		}
+
+		if (status != G_IO_STATUS_AGAIN) {
+			return FALSE;
+		}
 	}
 
 	if (condition & G_IO_HUP) {
-- 
2.43.0


From 97429c705645b94a1e36df9bf54dd112ca008c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:43 +0000
Subject: [PATCH 40/88] fix: keep network references and login details of
 connecting clients straight

---
 libirc/client.c |  8 +++++++-
 src/client.c    |  2 ++
 src/network.c   | 25 ++++++++++++++++++++-----
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index ab0b8c4..f036aa2 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -87,7 +87,7 @@ static void transport_log(struct irc_transport *transport,
 	struct irc_client *c = transport->userdata;
 	client_log(LOG_WARNING, c,
 		   "Error sending line '%s': %s", l->args[0],
-		   error->message);
+		   error != NULL?error->message:"Unknown error");
 }
 
 /**
@@ -313,6 +313,7 @@ static gboolean process_from_pending_client(struct irc_client *client,
 			return TRUE;
 		}
 
+		g_free(client->login_details->nick);
 		client->login_details->nick = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "USER")) {
 
@@ -322,11 +323,16 @@ static gboolean process_from_pending_client(struct irc_client *client,
 			return TRUE;
 		}
 
+		g_free(client->login_details->username);
 		client->login_details->username = g_strdup(l->args[1]);
+		g_free(client->login_details->mode);
 		client->login_details->mode = g_strdup(l->args[2]);
+		g_free(client->login_details->unused);
 		client->login_details->unused = g_strdup(l->args[3]);
+		g_free(client->login_details->realname);
 		client->login_details->realname = g_strdup(l->args[4]);
 	} else if (!base_strcmp(l->args[0], "PASS")) {
+		g_free(client->login_details->password);
 		client->login_details->password = g_strdup(l->args[1]);
 	} else if (!base_strcmp(l->args[0], "CONNECT")) {
 		if (l->argc < 2) {
diff --git a/src/client.c b/src/client.c
index d16ce18..891cb85 100644
--- a/src/client.c
+++ b/src/client.c
@@ -341,6 +341,7 @@ static void client_connect_command(struct irc_client *client, const char *hostna
 		client_log(LOG_ERROR, client,
 			"Unable to connect to network with name %s",
 			hostname);
+		irc_network_unref(client->network);
 		client->network = NULL;
 		return;
 	}
@@ -352,6 +353,7 @@ static void client_connect_command(struct irc_client *client, const char *hostna
 		connect_network(network);
 	}
 
+	irc_network_unref(client->network);
 	client->network = network;
 }
 
diff --git a/src/network.c b/src/network.c
index 5f3ae56..ec2690f 100644
--- a/src/network.c
+++ b/src/network.c
@@ -288,11 +288,21 @@ struct irc_network *find_network_by_hostname(struct global *global,
 		nc = network_config_init(global->config);
 
 		nc->implicit = 1;
+		g_free(nc->name);
 		nc->name = g_strdup(hostname);
 		if (login_details != NULL) {
-			nc->nick = g_strdup(login_details->nick);
-			nc->username = g_strdup(login_details->username);
-			nc->fullname = g_strdup(login_details->realname);
+			if (login_details->nick != NULL) {
+				g_free(nc->nick);
+				nc->nick = g_strdup(login_details->nick);
+			}
+			if (login_details->username != NULL) {
+				g_free(nc->username);
+				nc->username = g_strdup(login_details->username);
+			}
+			if (login_details->realname != NULL) {
+				g_free(nc->fullname);
+				nc->fullname = g_strdup(login_details->realname);
+			}
 			nc->password = g_strdup(login_details->password);
 		}
 		nc->type = NETWORK_TCP;
@@ -590,7 +600,7 @@ struct linestack_context *new_linestack(struct irc_network *n,
 										const char *basedir)
 {
 	char *readme_file;
-	char *data_dir;
+	char *data_dir, *name;
 	struct linestack_context *ret;
 	if (!g_file_test(basedir, G_FILE_TEST_IS_DIR)) {
 		g_mkdir(basedir, 0700);
@@ -600,7 +610,12 @@ struct linestack_context *new_linestack(struct irc_network *n,
 		}
 		g_free(readme_file);
 	}
-	data_dir = g_build_filename(basedir, n->name, NULL);
+	/* Make sure the name of the network can be used as file name */
+	name = g_strdelimit(g_strdup(n->name), "/", '_');
+	if (name[0] == '.')
+		name[0] = '_';
+	data_dir = g_build_filename(basedir, name, NULL);
+	g_free(name);
 	g_assert(data_dir != NULL);
 	ret = create_linestack(data_dir, TRUE, n->external_state);
 	g_free(data_dir);
-- 
2.43.0


From e3e9fb478fdabfbaa9edccb2c210ad560a04a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:23 +0000
Subject: [PATCH 41/88] fix: let only newlines end messages and log entries
 take one line

---
 libirc/line.c     | 38 +++++++++++++++++++++++++++++++++++---
 libirc/line.h     |  1 +
 libirc/listener.c |  9 ++-------
 src/log.c         |  5 +++--
 4 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/libirc/line.c b/libirc/line.c
index 80c8a08..1b22719 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -398,12 +398,45 @@ struct irc_line *linedup(const struct irc_line *l)
 	return ret;
 }
 
+/**
+ * Read a line from an IO channel.
+ *
+ * Only a newline (usually preceded by a carriage return) ends a line, unlike
+ * with the automatic line terminator detection of GIOChannels, which also
+ * splits lines at Unicode paragraph separators.
+ *
+ * @param c Channel to read from
+ * @param raw Set to the line, without terminator
+ * @param error Error
+ */
+GIOStatus irc_read_raw_line(GIOChannel *c, gchar **raw, GError **error)
+{
+	GIOStatus status;
+	gsize len, i;
+
+	g_io_channel_set_line_term(c, "\n", 1);
+
+	status = g_io_channel_read_line(c, raw, &len, NULL, error);
+	if (status != G_IO_STATUS_NORMAL)
+		return status;
+
+	while (len > 0 && ((*raw)[len-1] == '\n' || (*raw)[len-1] == '\r'))
+		len--;
+	(*raw)[len] = '\0';
+
+	/* These can not be part of a message */
+	for (i = 0; i < len; i++)
+		if ((*raw)[i] == '\r' || (*raw)[i] == '\0')
+			(*raw)[i] = ' ';
+
+	return status;
+}
+
 GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 						GError **error, struct irc_line **l)
 {
 	gchar *raw = NULL, *cvrt = NULL;
 	GIOStatus status;
-	gsize in_len;
 
 	g_assert(l != NULL);
 
@@ -412,9 +445,8 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 	g_assert(c);
 
 	do {
-		status = g_io_channel_read_line(c, &raw, &in_len, NULL, error);
+		status = irc_read_raw_line(c, &raw, error);
 		if (status != G_IO_STATUS_NORMAL) {
-			g_free(raw);
 			return status;
 		}
 
diff --git a/libirc/line.h b/libirc/line.h
index 9f06101..35df966 100644
--- a/libirc/line.h
+++ b/libirc/line.h
@@ -82,6 +82,7 @@ G_GNUC_NULL_TERMINATED G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct irc_line
  * Read a line from an IO Channel. This will return a line _with_ UTF-8
  * characters only!
  */
+G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT GIOStatus irc_read_raw_line(GIOChannel *c, gchar **raw, GError **error);
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 										GError **err,
 										struct irc_line **);
diff --git a/libirc/listener.c b/libirc/listener.c
index b601c5c..dde54e4 100644
--- a/libirc/listener.c
+++ b/libirc/listener.c
@@ -208,11 +208,9 @@ static GIOStatus handle_client_first_line(GIOChannel *ioc, struct pending_client
 	GError *error = NULL;
 	GIOStatus status;
 	gboolean ret;
-	gsize in_len;
 
-	status = g_io_channel_read_line(ioc, &raw, &in_len, NULL, &error);
+	status = irc_read_raw_line(ioc, &raw, &error);
 	if (status != G_IO_STATUS_NORMAL) {
-		g_free(raw);
 		if (error != NULL)
 			g_error_free(error);
 		return status;
@@ -220,10 +218,7 @@ static GIOStatus handle_client_first_line(GIOChannel *ioc, struct pending_client
 
 	pc->first_byte_pending = FALSE;
 
-	complete = g_malloc(in_len+2);
-	complete[0] = pc->first_byte;
-	memcpy(complete+1, raw, in_len);
-	complete[in_len+1] = '\0';
+	complete = g_strdup_printf("%c%s", pc->first_byte, raw);
 	g_free(raw);
 
 	if (pc->listener->iconv == (GIConv)-1) {
diff --git a/src/log.c b/src/log.c
index d67fc89..5e1b46e 100644
--- a/src/log.c
+++ b/src/log.c
@@ -45,8 +45,9 @@ void log_entry(enum log_level level, const struct irc_network *n, const struct i
 	if (!no_log_timestamp)
 		fprintf(flog, "[%s] ", get_date());
 	
-	g_assert(strchr(data, '\n') == NULL);
-	fprintf(flog, "%s", data);
+	/* Every entry takes exactly one line */
+	for (; *data != '\0'; data++)
+		fputc(*data == '\n' || *data == '\r'?' ':*data, flog);
 
 	if (n) {
 		fprintf(flog, " (%s", n->name);
-- 
2.43.0


From f2f5b5efa53695b228134525af69d1247558dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:01 +0000
Subject: [PATCH 42/88] fix: count clients correctly and survive clients
 without network in auto-away

---
 src/auto_away.c | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/auto_away.c b/src/auto_away.c
index ba6c10d..bc1e1ab 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -39,6 +39,22 @@ struct auto_away_data {
 	struct global *global;
 };
 
+static gboolean is_connected(const struct irc_network *n)
+{
+	return n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
+		n->external_state != NULL;
+}
+
+static void set_away(struct auto_away_data *d, struct irc_network *n)
+{
+	network_send_args(n, "AWAY",
+					  d->config->message != NULL?d->config->message:"Auto Away",
+					  NULL);
+
+	if (d->config->nick != NULL)
+		network_send_args(n, "NICK", d->config->nick, NULL);
+}
+
 static gboolean check_time(gpointer user_data)
 {
 	struct auto_away_data *d = (struct auto_away_data *)user_data;
@@ -47,15 +63,9 @@ static gboolean check_time(gpointer user_data)
 		GList *sl;
 		for (sl = d->global->networks; sl; sl = sl->next) {
 			struct irc_network *s = (struct irc_network *)sl->data;
-			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
-				s->external_state != NULL && !s->external_state->is_away &&
+			if (is_connected(s) && !s->external_state->is_away &&
 			    (d->config->client_limit < 0 || g_list_length(s->clients) <= d->config->client_limit)) {
-				network_send_args(s, "AWAY",
-								  d->config->message != NULL?d->config->message:"Auto Away",
-								  NULL);
-				if (d->config->nick != NULL) {
-					network_send_args(s, "NICK", d->config->nick, NULL);
-				}
+				set_away(d, s);
 			}
 		}
 	}
@@ -79,8 +89,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 		d->last_message = time(NULL);
 		for (sl = d->global->networks; sl; sl = sl->next) {
 			struct irc_network *s = (struct irc_network *)sl->data;
-			if (s->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD &&
-				s->external_state != NULL && s->external_state->is_away)
+			if (is_connected(s) && s->external_state->is_away)
 				network_send_args(s, "AWAY", NULL);
 		}
 	}
@@ -91,7 +100,9 @@ static gboolean new_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit < g_list_length(c->network->clients)+1)
+	/* The new client is already part of the list */
+	if (d->config->client_limit >= 0 && is_connected(c->network) &&
+		d->config->client_limit < g_list_length(c->network->clients))
 		network_send_args(c->network, "AWAY", NULL);
 
 	return TRUE;
@@ -100,11 +111,19 @@ static gboolean new_client(struct irc_client *c, void *userdata)
 static void lose_client(struct irc_client *c, void *userdata)
 {
 	struct auto_away_data *d = userdata;
+	int remaining;
+
+	/* The network may be gone or not even have been selected yet */
+	if (c->network == NULL || g_list_find(c->network->clients, c) == NULL)
+		return;
+
+	/* The client is still part of the list */
+	remaining = g_list_length(c->network->clients) - 1;
 
-	if (d->config->client_limit >= 0 && d->config->client_limit >= g_list_length(c->network->clients))
-		network_send_args(c->network, "AWAY",
-								  d->config->message != NULL?d->config->message:"Auto Away",
-								  NULL);
+	if (d->config->client_limit >= 0 && is_connected(c->network) &&
+		!c->network->external_state->is_away &&
+		d->config->client_limit >= remaining)
+		set_away(d, c->network);
 }
 
 void auto_away_add(struct global *global, struct auto_away_config *config)
-- 
2.43.0


From 6e1f8a2a9c7cc6d04d1f96d47859814542eef31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:15 +0000
Subject: [PATCH 43/88] fix: tell clients about the channel modes the server
 announced

---
 src/network.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/network.c b/src/network.c
index ec2690f..82a061c 100644
--- a/src/network.c
+++ b/src/network.c
@@ -48,6 +48,15 @@ static gboolean network_update_isupport(struct irc_network_info *net_info,
 		net_info->chantypes = g_strdup(remote_info->chantypes);
 	}
 
+	if (remote_info->chanmodes != NULL) {
+		g_strfreev(net_info->chanmodes);
+		net_info->chanmodes = g_strdupv(remote_info->chanmodes);
+		net_info->chanmodes_a = net_info->chanmodes[0];
+		net_info->chanmodes_b = net_info->chanmodes[1];
+		net_info->chanmodes_c = net_info->chanmodes[2];
+		net_info->chanmodes_d = net_info->chanmodes[3];
+	}
+
 	if (remote_info->casemapping != CASEMAP_UNKNOWN) {
 		net_info->casemapping = remote_info->casemapping;
 	}
-- 
2.43.0


From bee53a890e20e16b4e190bb51b8a56e8420d3a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:31 +0000
Subject: [PATCH 44/88] fix: answer queries from the cache only when the answer
 is known

---
 libirc/client.c |  2 +-
 libirc/state.c  | 37 ++++++++++++++++++++++++++-----------
 libirc/state.h  |  1 +
 src/cache.c     | 23 ++++++++++++++++++++---
 4 files changed, 48 insertions(+), 15 deletions(-)

diff --git a/libirc/client.c b/libirc/client.c
index f036aa2..76a9ba0 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -712,7 +712,7 @@ gboolean client_send_topic(struct irc_client *c, struct irc_channel_state *ch,
 		}
 	}
 
-	if (ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
+	if (ch->topic != NULL && ch->topic_set_time != 0 && ch->topic_set_by != NULL) {
 		char *tmp = g_strdup_printf("%ld", ch->topic_set_time);
 		ret = client_send_response(c, RPL_TOPICWHOTIME, ch->name, ch->topic_set_by,
 							 tmp, NULL);
diff --git a/libirc/state.c b/libirc/state.c
index 3f51369..0bdfe9d 100644
--- a/libirc/state.c
+++ b/libirc/state.c
@@ -634,7 +634,8 @@ static void handle_topic(struct irc_network_state *s, const struct irc_line *l)
 	if (c->topic_set_by != NULL) {
 		g_free(c->topic_set_by);
 	}
-	c->topic = g_strdup(l->args[2]);
+	/* An empty topic means there is none */
+	c->topic = (l->args[2][0] != '\0')?g_strdup(l->args[2]):NULL;
 	c->topic_set_time = time(NULL);
 	c->topic_set_by = line_get_nick(l);
 }
@@ -723,9 +724,10 @@ static void handle_namreply(struct irc_network_state *s, const struct irc_line *
 static void handle_end_names(struct irc_network_state *s, const struct irc_line *l)
 {
 	struct irc_channel_state *c = find_channel(s, l->args[2]);
-	if (c != NULL)
+	if (c != NULL) {
 		c->namreply_started = FALSE;
-	else
+		c->namreply_received = TRUE;
+	} else
 		network_state_log(LOG_WARNING, s,
 				  "Can't end /NAMES command for %s: channel not found",
 				  l->args[2]);
@@ -855,13 +857,11 @@ static void handle_whoreply(struct irc_network_state *s, const struct irc_line *
 	nn->hops = strtol(l->args[8], &fullname, 10);
 	g_assert(fullname);
 
-	if (nn->fullname == NULL) {
-		if (fullname[0] == ' ')
-			fullname++;
+	if (fullname[0] == ' ')
+		fullname++;
 
-		g_free(nn->fullname);
-		nn->fullname = g_strdup(fullname);
-	}
+	g_free(nn->fullname);
+	nn->fullname = g_strdup(fullname);
 
 	g_free(nn->server);
 	nn->server = g_strdup(l->args[5]);
@@ -890,14 +890,27 @@ static void handle_end_who(struct irc_network_state *s, const struct irc_line *l
 {
 }
 
+static void change_away(struct irc_network_state *s, gboolean is_away)
+{
+	GList *gl;
+
+	s->is_away = is_away;
+
+	/* The flags in earlier WHO replies are no longer right */
+	for (gl = s->me.channel_nicks; gl; gl = gl->next) {
+		struct channel_nick *cn = gl->data;
+		cn->last_update = 0;
+	}
+}
+
 static void handle_nowaway(struct irc_network_state *s, const struct irc_line *l)
 {
-	s->is_away = TRUE;
+	change_away(s, TRUE);
 }
 
 static void handle_unaway(struct irc_network_state *s, const struct irc_line *l)
 {
-	s->is_away = FALSE;
+	change_away(s, FALSE);
 }
 
 static void handle_quit(struct irc_network_state *s, const struct irc_line *l)
@@ -992,6 +1005,8 @@ static int channel_state_change_mode(struct irc_network_state *s, struct network
 		} else {
 			modes_unset_mode(n->modes, mode);
 		}
+		/* The flags in an earlier WHO reply are no longer right */
+		n->last_update = 0;
 		return 1;
 	} else if (cmt == CHANMODE_BOOL) {
 		modes_change_mode(c->modes, set, mode);
diff --git a/libirc/state.h b/libirc/state.h
index 6196304..d2729a5 100644
--- a/libirc/state.h
+++ b/libirc/state.h
@@ -97,6 +97,7 @@ struct irc_channel_state {
 	irc_modes_t modes;
 	time_t creation_time;
 	gboolean namreply_started;
+	gboolean namreply_received; /* whether the list of names is complete */
 	gboolean banlist_started;
 	gboolean invitelist_started;
 	gboolean exceptlist_started;
diff --git a/src/cache.c b/src/cache.c
index 5c71f1c..35a8f5d 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -54,13 +54,20 @@ static gboolean client_try_cache_mode(struct irc_client *c,
 			return FALSE;
 		}
 
+		/* Can everything that is asked for be answered? */
 		for (i = 0; (m = l->args[2][i]); i++) {
-			switch (m) {
-			case 'b': client_send_banlist(c, ch); break;
-			default: return FALSE;
+			if (m != 'b' || !channel_mode_nicklist_present(ch, m) ||
+				ch->banlist_started) {
+				return FALSE;
 			}
 		}
 
+		if (i == 0) {
+			return FALSE;
+		}
+
+		client_send_banlist(c, ch);
+
 		return TRUE;
 	/* Queries in the form MODE #channel */
 	} else if (l->argc == 2) {
@@ -107,6 +114,11 @@ static gboolean client_try_cache_topic(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* Still being told about the channel */
+	if (!ch->namreply_received) {
+		return FALSE;
+	}
+
 	client_send_topic(c, ch, TRUE);
 
 	return TRUE;
@@ -226,6 +238,11 @@ static gboolean client_try_cache_names(struct irc_client *c,
 		return FALSE;
 	}
 
+	/* Still waiting for (part of) the list? */
+	if (!ch->namreply_received || ch->namreply_started) {
+		return FALSE;
+	}
+
 	client_send_nameslist(c, ch);
 
 	return TRUE;
-- 
2.43.0


From bea45be3d3d0a1939916ec389e55115eece62783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:03 +0000
Subject: [PATCH 45/88] build: compile the sources as gnu89, which accepts line
 comments

---
 Makefile | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Makefile b/Makefile
index 3f83ed6..de90438 100644
--- a/Makefile
+++ b/Makefile
@@ -19,6 +19,9 @@ CFLAGS += $(GNUTLS_CFLAGS)
 
 CFLAGS+=-DHAVE_CONFIG_H -DDEFAULT_CONFIG_DIR=\"$(DEFAULT_CONFIG_DIR)\" -DHELPFILE=\"$(HELPFILE)\"
 CFLAGS+=-DMODULESDIR=\"$(modulesdir)\" -DSTRICT_MEMORY_ALLOCS=
+# The C89 dialect the sources are written in, with the GNU lexer, so that line
+# comments (in sources and in the headers of newer libraries) are accepted
+CFLAGS+=-std=gnu89
 
 .PHONY: all clean distclean install install-bin install-dirs install-doc install-data install-pkgconfig
 
-- 
2.43.0


From 41da22b214fa5cd8f3bbbc742bf41c0efac1ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 46/88] fix: store and restore the complete network state with
 the backlog

---
 libirc/linestack.c | 114 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 88 insertions(+), 26 deletions(-)

diff --git a/libirc/linestack.c b/libirc/linestack.c
index 873f9e4..2e37db5 100644
--- a/libirc/linestack.c
+++ b/libirc/linestack.c
@@ -145,6 +145,9 @@ struct linestack_context *create_linestack(const char *data_dir,
 	unlink(state_file);
 	g_free(state_file);
 
+	/* Only newlines end lines, also when reading them back */
+	g_io_channel_set_line_term(data->line_file, "\n", 1);
+
 	data->state_dir = g_build_filename(data_dir, "states", NULL);
 	g_mkdir(data->state_dir, 0755);
 
@@ -232,7 +235,9 @@ struct irc_network_state *linestack_get_state(
 	status = g_io_channel_flush(nd->index_file, &error);
 	LF_CHECK_IO_STATUS(status);
 
-	if (to_index != NULL) {
+	if (to_index != NULL && *to_index == 0) {
+		state_index = 0;
+	} else if (to_index != NULL) {
 		t = (*to_index)-1;
 		status = g_io_channel_seek_position(nd->index_file,
 			t * INDEX_RECORD_SIZE + sizeof(guint64) + sizeof(time_t),
@@ -271,10 +276,12 @@ struct irc_network_state *linestack_get_state(
 	g_free(data_file);
 
 	g_io_channel_set_encoding(state_file, NULL, NULL);
+	g_io_channel_set_line_term(state_file, "\n", 1);
 
 	ret = network_state_init("", "", "");
 	if (!marshall_network_state(MARSHALL_PULL, state_file, ret)) {
 		g_io_channel_unref(state_file);
+		free_network_state(ret);
 		return NULL;
 	}
 
@@ -417,13 +424,13 @@ static gboolean traverse_object_handler(struct irc_line *l, time_t t, void *stat
 		return TRUE;
 
 	if (strchr(l->args[1], ',') == NULL) {
-		if (!strcmp(l->args[1], d->object))
+		if (!base_strcmp(l->args[1], d->object))
 			ret &= d->handler(l, t, d->userdata);
 	} else {
 		int i;
 		char **channels = g_strsplit(l->args[1], ",", 0);
 		for (i = 0; channels[i]; i++) {
-			if (!strcmp(channels[i], d->object)) {
+			if (!base_strcmp(channels[i], d->object)) {
 				gboolean ret = d->handler(l, t, d->userdata);
 				g_strfreev(channels);
 				return ret;
@@ -509,7 +516,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	gboolean needed = FALSE;
 	GError *error = NULL;
 	GIOStatus status;
-	gboolean ret;
 
 	if (nd == NULL) return TRUE;
 
@@ -538,12 +544,6 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 		g_assert(strchr(l->args[i], '\r') == NULL);
 	}
 
-	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL) {
-		ret = file_insert_state(nd, state, nd->count);
-		if (ret == FALSE)
-			return FALSE;
-	}
-
 	if (!write_index_entry(nd->index_file,
 					  g_io_channel_tell_position(nd->line_file),
 					  time(NULL),
@@ -559,18 +559,33 @@ gboolean linestack_insert_line(struct linestack_context *nd,
 	}
 
 	nd->count++;
+
+	/* The state given includes the effects of the line, so it is what the lines
+	 * after this one have to be applied to. */
+	if (nd->count >= nd->last_line_with_state + STATE_DUMP_INTERVAL)
+		return file_insert_state(nd, state, nd->count);
+
 	return TRUE;
 }
 
 struct send_line_privdata {
 	int time_offset;
 	struct irc_client *client;
+	gboolean failed;
 };
 
+/* A line that can't be sent doesn't keep the others from being sent */
+static void send_to_client(struct send_line_privdata *privdata,
+						   const struct irc_line *l)
+{
+	if (!client_send_line(privdata->client, l, NULL))
+		privdata->failed = TRUE;
+}
+
 static gboolean send_line(struct irc_line *l, time_t t, void *_privdata)
 {
-	struct send_line_privdata *privdata = _privdata;
-	return client_send_line(privdata->client, l, NULL);
+	send_to_client(_privdata, l);
+	return TRUE;
 }
 
 static gboolean send_line_timed(struct irc_line *l, time_t t, void *_privdata)
@@ -582,13 +597,13 @@ static gboolean send_line_timed(struct irc_line *l, time_t t, void *_privdata)
 		l->argc > 2) {
 		line_prefix_time(l, t+privdata->time_offset);
 	}
-	return client_send_line(privdata->client, l, NULL);
+	send_to_client(privdata, l);
+	return TRUE;
 }
 
 static gboolean send_line_timed_dataonly(struct irc_line *l, time_t t, void *_privdata)
 {
 	struct send_line_privdata *privdata = _privdata;
-	gboolean ret;
 
 	if (base_strcmp(l->args[0], "PRIVMSG") != 0 &&
 		base_strcmp(l->args[0], "NOTICE") != 0)
@@ -599,14 +614,12 @@ static gboolean send_line_timed_dataonly(struct irc_line *l, time_t t, void *_pr
 	}
 
 	line_prefix_time(l, t+privdata->time_offset);
-	ret = client_send_line(privdata->client, l, NULL);
-	return ret;
+	send_to_client(privdata, l);
+	return TRUE;
 }
 
 static gboolean send_line_dataonly(struct irc_line *l, time_t t, void *_privdata)
 {
-	struct send_line_privdata *privdata = _privdata;
-
 	if (base_strcmp(l->args[0], "PRIVMSG") != 0 &&
 		base_strcmp(l->args[0], "NOTICE") != 0)
 		return TRUE;
@@ -614,7 +627,8 @@ static gboolean send_line_dataonly(struct irc_line *l, time_t t, void *_privdata
 	if (l->argc <= 2)
 		return TRUE;
 
-	return client_send_line(privdata->client, l, NULL);
+	send_to_client(_privdata, l);
+	return TRUE;
 }
 
 gboolean linestack_send(struct linestack_context *ctx, linestack_marker mf, linestack_marker mt, struct irc_client *c, gboolean dataonly, gboolean timed, int time_offset)
@@ -623,6 +637,7 @@ gboolean linestack_send(struct linestack_context *ctx, linestack_marker mf, line
 	linestack_traverse_fn trav_fn;
 
 	privdata.client = c;
+	privdata.failed = FALSE;
 	privdata.time_offset = time_offset;
 
 	if (dataonly) {
@@ -637,7 +652,8 @@ gboolean linestack_send(struct linestack_context *ctx, linestack_marker mf, line
 			trav_fn = send_line;
 	}
 
-	return linestack_traverse(ctx, mf, mt, trav_fn, &privdata);
+	return linestack_traverse(ctx, mf, mt, trav_fn, &privdata) &&
+		!privdata.failed;
 }
 
 gboolean linestack_send_object(struct linestack_context *ctx, const char *obj, linestack_marker mf, linestack_marker mt, struct irc_client *c, gboolean dataonly, gboolean timed, int time_offset)
@@ -646,6 +662,7 @@ gboolean linestack_send_object(struct linestack_context *ctx, const char *obj, l
 	linestack_traverse_fn trav_fn;
 
 	privdata.client = c;
+	privdata.failed = FALSE;
 	privdata.time_offset = time_offset;
 
 	if (dataonly) {
@@ -660,7 +677,8 @@ gboolean linestack_send_object(struct linestack_context *ctx, const char *obj, l
 			trav_fn = send_line;
 	}
 
-	return linestack_traverse_object(ctx, obj, mf, mt, trav_fn, &privdata);
+	return linestack_traverse_object(ctx, obj, mf, mt, trav_fn, &privdata) &&
+		!privdata.failed;
 }
 
 static gboolean replay_line(struct irc_line *l, time_t t, void *state)
@@ -679,7 +697,7 @@ gboolean linestack_replay(struct linestack_context *ctx,
 }
 
 
-#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc(sizeof(**t));
+#define marshall_new(m,t) if ((m) == MARSHALL_PULL) *(t) = g_malloc0(sizeof(**t));
 
 static const char tabs[10] = {'\t', '\t', '\t', '\t', '\t',
 			       '\t', '\t', '\t', '\t', '\t' };
@@ -821,7 +839,7 @@ static gboolean marshall_char(struct irc_network_state *nst, const char *name, i
 static gboolean marshall_int(struct irc_network_state *nst, const char *name, int level, enum marshall_mode m, GIOChannel *t, int *n)
 {
 	if (m == MARSHALL_PUSH) {
-		char tmp[10];
+		char tmp[20];
 		GError *error = NULL;
 		GIOStatus status;
 		g_snprintf(tmp, sizeof(tmp), "%d", *n);
@@ -894,6 +912,7 @@ static gboolean marshall_network_nick (struct irc_network_state *nst, const char
 	ret &= marshall_string(nst, "hostname", level+1, m, t, &n->hostname);
 	ret &= marshall_string(nst, "hostmask", level+1, m, t, &n->hostmask);
 	ret &= marshall_string(nst, "server", level+1, m, t, &n->server);
+	ret &= marshall_int(nst, "hops", level+1, m, t, &n->hops);
 	if (m == MARSHALL_PULL)
 		n->channel_nicks = NULL;
 	return ret;
@@ -976,6 +995,9 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	ret &= marshall_char(nst, "mode", level+1, m, t, &((*c)->mode));
 	ret &= marshall_modes(nst, "modes", level+1, m, t, (*c)->modes);
 	ret &= marshall_bool(nst, "namreply_started", level+1, m, t, &(*c)->namreply_started);
+	ret &= marshall_bool(nst, "namreply_received", level+1, m, t, &(*c)->namreply_received);
+	ret &= marshall_bool(nst, "mode_received", level+1, m, t, &(*c)->mode_received);
+	ret &= marshall_time(nst, "creation_time", level+1, m, t, &(*c)->creation_time);
 	ret &= marshall_bool(nst, "banlist_started", level+1, m, t, &(*c)->banlist_started);
 	ret &= marshall_bool(nst, "invitelist_started", level+1, m, t, &(*c)->invitelist_started);
 	ret &= marshall_bool(nst, "exceptlist_started", level+1, m, t, &(*c)->exceptlist_started);
@@ -987,6 +1009,8 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		char name[20];
 		g_snprintf(name, sizeof(name), "mode_nicklist[%d]", i);
 		ret &= marshall_GList(nst, name, level+1, m, t, &(*c)->chanmode_nicklist[i], (marshall_fn_t)marshall_nicklist_entry);
+		g_snprintf(name, sizeof(name), "mode_present[%d]", i);
+		ret &= marshall_bool(nst, name, level+1, m, t, &(*c)->chanmode_nicklist_present[i]);
 		g_snprintf(name, sizeof(name), "mode_option[%d]", i);
 		ret &= marshall_string(nst, name, level+1, m, t, &(*c)->chanmode_option[i]);
 	}
@@ -1006,7 +1030,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		for (i = 0; i < count; i++) {
 			struct channel_nick *cn;
 			char *nick;
-			char tmp[10];
+			char tmp[20];
 			g_snprintf(tmp, sizeof(tmp), "[%d]", i);
 
 			marshall_struct(t, m, level+2, tmp);
@@ -1024,7 +1048,7 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 		}
 	} else {
 		int count = g_list_length((*c)->nicks);
-		char tmp[10];
+		char tmp[20];
 		int i = 0;
 		GList *l;
 
@@ -1049,15 +1073,53 @@ static gboolean marshall_channel_state (struct irc_network_state *nst,
 	return ret;
 }
 
+/* What the server announced, without which names and modes mean something
+ * different */
+static gboolean marshall_network_info(struct irc_network_state *n,
+									  enum marshall_mode m, GIOChannel *t)
+{
+	gboolean ret = TRUE;
+	int casemapping;
+	char *features = NULL;
+
+	if (m == MARSHALL_PUSH)
+		features = network_info_string(n->info);
+
+	ret &= marshall_string(n, "features", 0, m, t, &features);
+
+	if (m == MARSHALL_PULL && features != NULL) {
+		char **tokens = g_strsplit(features, " ", 0);
+		int i;
+		for (i = 0; tokens[i]; i++) {
+			if (tokens[i][0] != '\0')
+				network_info_parse(n->info, tokens[i]);
+		}
+		g_strfreev(tokens);
+	}
+	g_free(features);
+
+	casemapping = n->info->casemapping;
+	ret &= marshall_int(n, "casemapping", 0, m, t, &casemapping);
+	n->info->casemapping = casemapping;
+	ret &= marshall_string(n, "server", 0, m, t, &n->info->server);
+	ret &= marshall_string(n, "supported_user_modes", 0, m, t, &n->info->supported_user_modes);
+	ret &= marshall_string(n, "supported_channel_modes", 0, m, t, &n->info->supported_channel_modes);
+	return ret;
+}
+
 static gboolean marshall_network_state(enum marshall_mode m, GIOChannel *t,
 									   struct irc_network_state *n)
 {
 	gboolean ret = TRUE;
 
 	if (m == MARSHALL_PULL) {
+		g_free(n->me.nick);
+		g_free(n->me.username);
+		g_free(n->me.hostname);
 		g_free(n->me.hostmask);
-		n->me.hostmask = NULL;
 	}
+	ret &= marshall_network_info(n, m, t);
+	ret &= marshall_bool(n, "away", 0, m, t, &n->is_away);
 	ret &= marshall_network_nick(n, "me", 0, m, t, &n->me);
 	ret &= marshall_GList(n, "nicks", 0, m, t, &n->nicks, (marshall_fn_t)marshall_network_nick_p);
 	ret &= marshall_GList(n, "channels", 0, m, t, &n->channels, (marshall_fn_t)marshall_channel_state);
-- 
2.43.0


From bdf5fb3e27a248907de37996a7f54891b4bb62f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 47/88] fix: forget backlog positions with the backlog they
 belong to

---
 src/admin.c         |  7 ++++
 src/admin.h         |  1 +
 src/client.c        |  9 +++--
 src/network.c       | 12 ++++++-
 src/repl.h          |  1 +
 src/repl_backends.c | 81 ++++++++++++++++++++++++++++++---------------
 6 files changed, 80 insertions(+), 31 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 815fdfd..17fa1ab 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -623,6 +623,13 @@ static void cmd_die(admin_handle h, const char * const *args, void *userdata)
 
 static GHashTable *markers = NULL;
 
+/* Forget up to where the backlog of a network was sent */
+void admin_forget_network(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+}
+
 static void cmd_backlog(admin_handle h, const char * const *args, void *userdata)
 {
 	linestack_marker lm;
diff --git a/src/admin.h b/src/admin.h
index b83d070..77fb1c8 100644
--- a/src/admin.h
+++ b/src/admin.h
@@ -49,6 +49,7 @@ G_MODULE_EXPORT void admin_out(admin_handle h, const char *fmt, ...);
 G_MODULE_EXPORT struct irc_client *admin_get_client(admin_handle h);
 
 G_MODULE_EXPORT struct irc_network *admin_get_network(admin_handle h);
+void admin_forget_network(struct irc_network *n);
 
 G_MODULE_EXPORT struct global *admin_get_global(admin_handle h);
 
diff --git a/src/client.c b/src/client.c
index 891cb85..157372e 100644
--- a/src/client.c
+++ b/src/client.c
@@ -311,9 +311,12 @@ static void handle_client_disconnect(struct irc_client *c)
 {
 	GList *l;
 
-	for (l = lose_client_hooks; l; l = l->next) {
-		struct lose_client_hook_data *d = (struct lose_client_hook_data *)l->data;
-		d->hook(c, d->userdata);
+	/* Those that never completed their login were not there to be lost */
+	if (c->network != NULL && g_list_find(c->network->clients, c) != NULL) {
+		for (l = lose_client_hooks; l; l = l->next) {
+			struct lose_client_hook_data *d = (struct lose_client_hook_data *)l->data;
+			d->hook(c, d->userdata);
+		}
 	}
 
 	if (c->network != NULL) {
diff --git a/src/network.c b/src/network.c
index 82a061c..0177ee1 100644
--- a/src/network.c
+++ b/src/network.c
@@ -163,6 +163,9 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 		network_update_isupport(n->info, n->external_state->info);
 
+		/* The backlog starts from the state at the end of the login */
+		n->linestack = new_linestack(n, n->global->config->linestack_dir);
+
 		nickserv_identify_me(n, n->external_state->me.nick);
 
 		clients_send_state(n->clients, n->external_state);
@@ -415,6 +418,9 @@ static void handle_network_disconnect(struct irc_network *n)
 		n->queries = NULL;
 	}
 	if (n->linestack != NULL) {
+		/* Positions in this backlog mean nothing in the next one */
+		replication_forget_network(n);
+		admin_forget_network(n);
 		free_linestack_context(n->linestack);
 		n->linestack = NULL;
 	}
@@ -422,7 +428,11 @@ static void handle_network_disconnect(struct irc_network *n)
 
 static void handle_network_state_set(struct irc_network *s)
 {
-	s->linestack = new_linestack(s, s->global->config->linestack_dir);
+	struct network_config *nc = s->private_data;
+
+	/* There is no login on virtual networks */
+	if (nc->type == NETWORK_VIRTUAL)
+		s->linestack = new_linestack(s, s->global->config->linestack_dir);
 	s->queries = new_query_stack((void (*)(void *))client_ref_void,
 								 (void (*)(void *))client_unref);
 }
diff --git a/src/repl.h b/src/repl.h
index 33672cd..12774cc 100644
--- a/src/repl.h
+++ b/src/repl.h
@@ -37,5 +37,6 @@ struct replication_backend {
 
 void register_replication_backend(const struct replication_backend *);
 struct replication_backend *repl_find_backend(const char *name);
+void replication_forget_network(struct irc_network *n);
 
 #endif /* __CTRLPROXY_REPL_H__ */
diff --git a/src/repl_backends.c b/src/repl_backends.c
index 123e7f4..f84db4a 100644
--- a/src/repl_backends.c
+++ b/src/repl_backends.c
@@ -25,9 +25,47 @@ static GHashTable *markers = NULL;
 static GHashTable *lastdisconnect_backlog = NULL;
 static GHashTable *simple_backlog = NULL;
 
+/* Forget the positions in the backlog of a network */
+void replication_forget_network(struct irc_network *n)
+{
+	if (markers != NULL)
+		g_hash_table_remove(markers, n);
+	if (lastdisconnect_backlog != NULL)
+		g_hash_table_remove(lastdisconnect_backlog, n);
+	if (simple_backlog != NULL)
+		g_hash_table_remove(simple_backlog, n);
+}
+
+/* Send the state at a point (the start if NULL) and what was stored since. */
+static void replicate_since(struct irc_client *c, linestack_marker lm)
+{
+	struct irc_network_state *ns;
+	guint64 start = 0;
+
+	if (lm == NULL)
+		lm = &start;
+
+	ns = linestack_get_state(c->network->linestack, lm);
+	if (ns == NULL) {
+		/* Later lines make no sense to the client without it */
+		if (c->network->external_state != NULL)
+			client_send_state(c, c->network->external_state);
+		return;
+	}
+
+	client_send_state(c, ns);
+	free_network_state(ns);
+
+	if (!linestack_send(c->network->linestack, lm, NULL, c, FALSE,
+				   c->network->global->config->report_time != REPORT_TIME_NEVER,
+				   c->network->global->config->report_time_offset))
+		client_log(LOG_WARNING, c, "Some errors sending backlog.");
+}
+
 static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 {
 	struct irc_client *c = userdata;
+	struct ctrlproxy_config *cfg = c->network->global->config;
 	int i;
 
 	if (base_strcmp(l->args[0], "PRIVMSG") != 0 &&
@@ -39,7 +77,10 @@ static gboolean check_highlight(struct irc_line *l, time_t t, void *userdata)
 
 	for (i = 0; matches && matches[i]; i++) {
 		if (strstr(l->args[2], matches[i]) != NULL) {
-			return client_send_line(c, l, NULL);
+			if (cfg->report_time != REPORT_TIME_NEVER)
+				line_prefix_time(l, t + cfg->report_time_offset);
+			client_send_line(c, l, NULL);
+			break;
 		}
 	}
 
@@ -58,7 +99,8 @@ static void highlight_replicate(struct irc_client *c)
 		return;
 	}
 
-	linestack_traverse(c->network->linestack, lm, NULL, check_highlight, c);
+	if (!linestack_traverse(c->network->linestack, lm, NULL, check_highlight, c))
+		client_log(LOG_WARNING, c, "Some errors sending backlog.");
 	g_hash_table_replace(markers, irc_network_ref(c->network), linestack_get_marker(c->network->linestack));
 }
 
@@ -80,21 +122,10 @@ static void lastdisconnect_mark(struct irc_client *c, void *userdata)
 
 static void lastdisconnect_replicate(struct irc_client *c)
 {
-	linestack_marker lm = g_hash_table_lookup(lastdisconnect_backlog, c->network);
-	struct irc_network_state *ns;
-
 	if (c->network->linestack == NULL)
 		return;
 
-	ns = linestack_get_state(c->network->linestack, lm);
-	if (ns != NULL) {
-		client_send_state(c, ns);
-	}
-	free_network_state(ns);
-
-	linestack_send(c->network->linestack, lm, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	replicate_since(c, g_hash_table_lookup(lastdisconnect_backlog, c->network));
 }
 
 static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum data_direction dir, void *userdata)
@@ -104,6 +135,11 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 	if (base_strcmp(l->args[0], "PRIVMSG") &&
 		base_strcmp(l->args[0], "NOTICE")) return TRUE;
 
+	/* CTCP requests and replies, some of which are sent automatically, are
+	 * not something the user says. */
+	if (l->argc > 2 && l->args[2][0] == '\001' &&
+		base_strncmp(l->args[2], "\001ACTION", 7) != 0) return TRUE;
+
 	if (n->linestack != NULL)
 		g_hash_table_replace(simple_backlog, irc_network_ref(n),
 							 linestack_get_marker(n->linestack));
@@ -113,22 +149,10 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l, enum d
 
 static void simple_replicate(struct irc_client *c)
 {
-	linestack_marker m;
-	struct irc_network_state *ns;
-
 	if (c->network->linestack == NULL)
 		return;
 
-	m = g_hash_table_lookup(simple_backlog, c->network);
-	ns = linestack_get_state(c->network->linestack, m);
-	if (ns) {
-		client_send_state(c, ns);
-	}
-	free_network_state(ns);
-
-	linestack_send(c->network->linestack, m, NULL, c, FALSE,
-				   c->network->global->config->report_time != REPORT_TIME_NEVER,
-				   c->network->global->config->report_time_offset);
+	replicate_since(c, g_hash_table_lookup(simple_backlog, c->network));
 }
 
 static const struct replication_backend backends[] = {
@@ -143,6 +167,9 @@ static void load_config(struct global *global)
 {
     matches = g_key_file_get_string_list(global->config->keyfile,
                            "global", "match", NULL, NULL);
+	if (matches == NULL) /* as in config.example */
+		matches = g_key_file_get_string_list(global->config->keyfile,
+                           "global", "matches", NULL, NULL);
 	markers = g_hash_table_new_full(NULL, NULL,
 									(GDestroyNotify)irc_network_unref,
 									(GDestroyNotify)linestack_free_marker);
-- 
2.43.0


From 6de56e0f80862562dccd9585047878ef249e6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:52 +0000
Subject: [PATCH 48/88] fix: report no times unless configured, as documented

---
 src/settings.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/settings.c b/src/settings.c
index 86641bd..f2b471f 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1306,6 +1306,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	cfg->replication = g_key_file_get_string(kf, "global", "replication", NULL);
 
+	cfg->report_time = REPORT_TIME_NEVER;
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
 		char *setting = g_key_file_get_string(kf, "global", "report-time", NULL);
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
-- 
2.43.0


From 472dd57310df5e4af974be5836fc28338a009d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:04 +0000
Subject: [PATCH 49/88] fix: match refusals and trailing replies to the
 commands they answer

---
 libirc/redirect.c | 65 ++++++++++++++++++++++++++++++++++++++---------
 libirc/redirect.h |  2 ++
 2 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/libirc/redirect.c b/libirc/redirect.c
index 3ec3754..c77316a 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -531,6 +531,7 @@ static void query_stack_answered(struct query_stack *stack, struct query_stack_e
 	if (stack->answered != NULL)
 		query_stack_free_entry(stack, stack->answered);
 	stack->answered = s;
+	stack->trailed = FALSE;
 }
 
 /**
@@ -566,19 +567,28 @@ static gboolean query_names(const struct query_stack_entry *s, const char *name)
 }
 
 /**
- * Check whether a response is about something mentioned in a query.
+ * Check how many of the things a response is about are mentioned in a query.
  */
-static gboolean query_names_subject(const struct query_stack_entry *s, const struct irc_line *l)
+static int query_names_subject(const struct query_stack_entry *s, const struct irc_line *l)
 {
-	int i;
+	int i, ret = 0;
+
+	/* A response that is about nothing in particular fits any query, in
+	 * particular those about the user */
+	if (l->argc <= 3)
+		return (l->argc > 1 && query_names(s, l->args[1]))?2:1;
 
 	/* The last parameter just is a description */
 	for (i = 2; i < l->argc-1 && i < 5; i++) {
 		if (query_names(s, l->args[i]))
-			return TRUE;
+			ret++;
 	}
 
-	return FALSE;
+	/* Missing something is a reason to be refused */
+	if (ret > 0 && s->args[1] == NULL)
+		ret++;
+
+	return ret;
 }
 
 /**
@@ -598,6 +608,15 @@ static gboolean is_announcement(int n)
 	}
 }
 
+/**
+ * Check whether a response belongs to the one that completed a query.
+ */
+static gboolean is_trailer(const struct query_stack_entry *s, int n)
+{
+	return (n == RPL_TOPICWHOTIME && !base_strcmp(s->query->name, "TOPIC")) ||
+		   (n == RPL_CREATIONTIME && !base_strcmp(s->query->name, "MODE"));
+}
+
 /**
  * Find the query a response is the reply to.
  *
@@ -608,11 +627,11 @@ static gboolean is_announcement(int n)
  */
 void *query_stack_match_response(struct query_stack *stack, const struct irc_line *l)
 {
-	int n;
+	int n, named, most_named = 0;
 	GList *gl, *next;
 	struct query_stack_entry *e = NULL, *first_silent = NULL,
 							 *named_silent = NULL, *other = NULL,
-							 *other_silent = NULL, *oldest;
+							 *other_silent = NULL, *oldest, *answered;
 	time_t now = time(NULL);
 	gboolean done;
 
@@ -636,13 +655,16 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 			is_reply(s->query->end_replies, n))
 			continue;
 
-		if (query_names_subject(s, l)) {
+		named = query_names_subject(s, l);
+		if (named > 0) {
 			if (!s->silent)
-				e = s;
-			else {
-				if (named_silent == NULL)
+				/* A query for everything comes first if it was sent first */
+				e = (other != NULL && other->args[1] == NULL)?other:s;
+			else if (named >= most_named) {
+				if (named > most_named)
 					first_silent = s;
 				named_silent = s;
+				most_named = named;
 			}
 		} else if (is_announcement(n)) {
 			if (!s->silent && s->args[1] == NULL && other == NULL)
@@ -665,6 +687,16 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 	if (e == NULL)
 		e = (other != NULL)?other:other_silent;
 
+	answered = stack->answered;
+	if (e == NULL && answered != NULL && is_trailer(answered, n) &&
+		query_names_subject(answered, l) && !stack->trailed) {
+		stack->trailed = TRUE;
+		return answered->userdata;
+	}
+
+	if (is_announcement(n) || n == RPL_CHANNELMODEIS)
+		stack->trailed = TRUE;
+
 	if (e == NULL)
 		return NULL;
 
@@ -695,8 +727,17 @@ void *query_stack_match_response(struct query_stack *stack, const struct irc_lin
 		done = FALSE;
 	}
 
-	if (done)
+	if (done) {
+		/* If the first of several like commands has not been handled yet, it
+		 * is the turn of the last one that remains unanswered. */
+		if (e == named_silent && first_silent != e) {
+			stack->entries = g_list_remove(stack->entries, first_silent);
+			gl = g_list_find(stack->entries, e);
+			stack->entries = g_list_insert_before(stack->entries, gl, first_silent);
+			first_silent->time = e->time;
+		}
 		query_stack_answered(stack, e);
+	}
 
 	return e->userdata;
 }
diff --git a/libirc/redirect.h b/libirc/redirect.h
index a76c075..495a46c 100644
--- a/libirc/redirect.h
+++ b/libirc/redirect.h
@@ -60,6 +60,8 @@ struct query_stack {
 	/** Last query that was answered; keeps its userdata alive for the user of
 	 * query_stack_match_response() */
 	struct query_stack_entry *answered;
+	/** Whether what could have followed that answer has been processed */
+	gboolean trailed;
 	void (*unref_userdata) (void *);
 	void (*ref_userdata) (void *);
 };
-- 
2.43.0


From 5a03fe2c653ca468f35962ea2b94e049c1020ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:06 +0000
Subject: [PATCH 50/88] fix: give all WHOIS replies in use to the client that
 asked

---
 libirc/irc.h      | 4 ++++
 libirc/redirect.c | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libirc/irc.h b/libirc/irc.h
index 4a20568..a34be1c 100644
--- a/libirc/irc.h
+++ b/libirc/irc.h
@@ -183,6 +183,10 @@
 #define RPL_LOCALUSERS 265
 #define RPL_GLOBALUSERS 266
 #define RPL_WHOISSSL 275
+#define RPL_WHOISCERTFP 276
+#define RPL_WHOISHOST 378
+#define RPL_WHOISMODES 379
+#define RPL_WHOISSECURE 671
 
 /* These are obsolete */
 #define RPL_STATSQLINE 217
diff --git a/libirc/redirect.c b/libirc/redirect.c
index c77316a..1ef19ab 100644
--- a/libirc/redirect.c
+++ b/libirc/redirect.c
@@ -48,11 +48,12 @@ static struct query queries[] = {
  * WHOIS [<server>] <nickmask>[,<nickmask>[,...]] */
 	{"WHOIS",
 		{ RPL_WHOISUSER, RPL_WHOISCHANNELS, RPL_AWAY,
-		  RPL_WHOISIDLE, RPL_WHOISCHANNELS, RPL_WHOISIP,
+		  RPL_WHOISIDLE, RPL_WHOISIP,
 		  RPL_WHOISSERVER, RPL_WHOISOPERATOR, RPL_WHOISACTUALLY,
 		  RPL_WHOISSSL, RPL_WHOISACCOUNT, RPL_WHOISIDENTIFIED,
 		  RPL_WHOISSERVEROPERATOR, RPL_WHOISNETWORKSERVICE,
-		  RPL_WHOISOPERPRIVS, ERR_NOSUCHNICK, 0 },
+		  RPL_WHOISOPERPRIVS, RPL_WHOISCERTFP, RPL_WHOISHOST,
+		  RPL_WHOISMODES, RPL_WHOISSECURE, ERR_NOSUCHNICK, 0 },
 		{ RPL_ENDOFWHOIS, RPL_TRYAGAIN, 0 },
 		{ ERR_NOSUCHSERVER, ERR_NONICKNAMEGIVEN, 0 },
 		handle_default
-- 
2.43.0


From 83dd3287a1fd9ddeda9eec15aafe83beb0b9e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:23 +0000
Subject: [PATCH 51/88] fix: know the own real name from the login, for CTCP
 FINGER and WHO

---
 libirc/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 06bc736..04e1750 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -51,6 +51,7 @@ static void server_send_login (struct irc_network *s)
 
 	s->external_state = network_state_init(login_details->nick, login_details->username,
 								  get_my_hostname());
+	s->external_state->me.fullname = g_strdup(login_details->realname);
 	network_state_set_log_fn(s->external_state, state_log_helper, s);
 	if (s->callbacks->state_set)
 		s->callbacks->state_set(s);
@@ -810,6 +811,7 @@ static gboolean connect_virtual(struct irc_network *s)
 
 	s->external_state = network_state_init(details->nick, details->username,
 								  get_my_hostname());
+	s->external_state->me.fullname = g_strdup(details->realname);
 
 	free_login_details(details);
 	s->external_state->userdata = s;
-- 
2.43.0


From cfa6b544024df63d375e4817d81c7ab83afdb62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 52/88] fix: don't lose administration output that can't be
 written at once

---
 src/admin.c | 107 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 80 insertions(+), 27 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 17fa1ab..3028bfc 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1910,40 +1910,87 @@ void init_admin(void)
 	markers = g_hash_table_new_full(NULL, NULL, NULL, (GDestroyNotify)linestack_free_marker);
 }
 
-static void iochannel_admin_out(admin_handle h, const char *data)
+/** A connection to the administration socket. */
+struct admin_connection {
+	struct global *global;
+	GIOChannel *channel;
+	/** Output the channel didn't accept yet. */
+	GString *pending;
+	guint outgoing_id;
+	/** Number of watches using this connection. */
+	int refcount;
+};
+
+static void admin_connection_unref(gpointer data)
 {
-	gsize bytes_written;
-	GError *error = NULL;
-	GIOStatus status;
+	struct admin_connection *ac = data;
 
-	status = g_io_channel_write_chars(h->user_data, data, -1, &bytes_written, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		if (error != NULL) {
-			g_error_free(error);
-		}
+	ac->refcount--;
+	if (ac->refcount > 0)
 		return;
-	}
 
-	status = g_io_channel_write_chars(h->user_data, "\n", -1, &bytes_written, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		if (error != NULL) {
-			g_error_free(error);
-		}
-		return;
+	g_io_channel_unref(ac->channel);
+	g_string_free(ac->pending, TRUE);
+	g_free(ac);
+}
+
+/* Write as much of the output as possible without blocking, returns TRUE
+ * if the rest has to wait until the channel can be written to. */
+static gboolean admin_connection_flush(struct admin_connection *ac)
+{
+	GIOStatus status = G_IO_STATUS_NORMAL;
+	gsize bytes_written;
+
+	while (ac->pending->len > 0 && status == G_IO_STATUS_NORMAL) {
+		bytes_written = 0;
+		status = g_io_channel_write_chars(ac->channel, ac->pending->str,
+										  ac->pending->len, &bytes_written,
+										  NULL);
+		g_string_erase(ac->pending, 0, bytes_written);
 	}
 
-	status = g_io_channel_flush(h->user_data, &error);
-	if (status != G_IO_STATUS_NORMAL) {
-		if (error != NULL) {
-			g_error_free(error);
-		}
-		return;
+	if (status == G_IO_STATUS_NORMAL)
+		status = g_io_channel_flush(ac->channel, NULL);
+
+	if (status == G_IO_STATUS_AGAIN)
+		return TRUE;
+
+	g_string_truncate(ac->pending, 0);
+	return FALSE;
+}
+
+static gboolean handle_client_writable(GIOChannel *channel,
+									   GIOCondition condition, void *_ac)
+{
+	struct admin_connection *ac = _ac;
+
+	if (admin_connection_flush(ac))
+		return TRUE;
+
+	ac->outgoing_id = 0;
+	return FALSE;
+}
+
+static void iochannel_admin_out(admin_handle h, const char *data)
+{
+	struct admin_connection *ac = h->user_data;
+
+	g_string_append(ac->pending, data);
+	g_string_append_c(ac->pending, '\n');
+
+	if (ac->outgoing_id == 0 && admin_connection_flush(ac)) {
+		ac->refcount++;
+		ac->outgoing_id = g_io_add_watch_full(ac->channel, G_PRIORITY_DEFAULT,
+								G_IO_OUT | G_IO_ERR | G_IO_HUP,
+								handle_client_writable, ac,
+								admin_connection_unref);
 	}
 }
 
 static gboolean handle_client_data(GIOChannel *channel,
-								  GIOCondition condition, void *_global)
+								  GIOCondition condition, void *_ac)
 {
+	struct admin_connection *ac = _ac;
 	char *raw;
 	GError *error = NULL;
 	GIOStatus status;
@@ -1951,8 +1998,8 @@ static gboolean handle_client_data(GIOChannel *channel,
 	gsize eol;
 
 	memset(&ah, 0, sizeof(ah));
-	ah.global = _global;
-	ah.user_data = channel;
+	ah.global = ac->global;
+	ah.user_data = ac;
 	ah.send_fn = iochannel_admin_out;
 
 	if (condition & G_IO_IN) {
@@ -1987,6 +2034,7 @@ static gboolean handle_new_client(GIOChannel *c_server,
 								  GIOCondition condition, void *_global)
 {
 	GIOChannel *c;
+	struct admin_connection *ac;
 	int sock = accept(g_io_channel_unix_get_fd(c_server), NULL, 0);
 
 	if (sock < 0) {
@@ -2000,9 +2048,14 @@ static gboolean handle_new_client(GIOChannel *c_server,
 	g_io_channel_set_encoding(c, NULL, NULL);
 	g_io_channel_set_flags(c, G_IO_FLAG_NONBLOCK, NULL);
 
-	g_io_add_watch(c, G_IO_IN | G_IO_ERR | G_IO_HUP, handle_client_data, _global);
+	ac = g_new0(struct admin_connection, 1);
+	ac->global = _global;
+	ac->channel = c;
+	ac->pending = g_string_new(NULL);
+	ac->refcount = 1;
 
-	g_io_channel_unref(c);
+	g_io_add_watch_full(c, G_PRIORITY_DEFAULT, G_IO_IN | G_IO_ERR | G_IO_HUP,
+						handle_client_data, ac, admin_connection_unref);
 
 	return TRUE;
 }
-- 
2.43.0


From b9bcf5a1a901c8ae45f9e4af7c8efa43565f06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:06 +0000
Subject: [PATCH 53/88] fix: don't take CTCP replies for a sign of activity in
 auto-away

---
 src/auto_away.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/auto_away.c b/src/auto_away.c
index bc1e1ab..98b9d51 100644
--- a/src/auto_away.c
+++ b/src/auto_away.c
@@ -73,6 +73,13 @@ static gboolean check_time(gpointer user_data)
 	return TRUE;
 }
 
+/* Replies to CTCP requests are usually sent without the user being there */
+static gboolean is_ctcp_reply(const struct irc_line *l)
+{
+	return !base_strcmp(l->args[0], "NOTICE") && l->argc > 2 &&
+		l->args[2][0] == '\001';
+}
+
 static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 						 enum data_direction dir, void *userdata)
 {
@@ -85,7 +92,7 @@ static gboolean log_data(struct irc_network *n, const struct irc_line *l,
 
 	if (dir == TO_SERVER &&
 	   (!base_strcmp(l->args[0], "PRIVMSG") ||
-		!base_strcmp(l->args[0], "NOTICE"))) {
+		!base_strcmp(l->args[0], "NOTICE")) && !is_ctcp_reply(l)) {
 		d->last_message = time(NULL);
 		for (sl = d->global->networks; sl; sl = sl->next) {
 			struct irc_network *s = (struct irc_network *)sl->data;
-- 
2.43.0


From 114cd0e4af3ee833f59e5f8b75e8c538ef53752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:55 +0000
Subject: [PATCH 54/88] fix: tell virtual networks which client a line comes
 from

Commands given in the administration channel that concern the client
(DETACH, BACKLOG, CHARSET) claimed that there was no client.
---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 0177ee1..1123ffe 100644
--- a/src/network.c
+++ b/src/network.c
@@ -602,7 +602,7 @@ gboolean network_forward_line(struct irc_network *s, struct irc_client *c,
 		}
 	}
 
-	return network_send_line(s, NULL, l);
+	return network_send_line(s, c, l);
 }
 
 #define LINESTACK_README_CONTENTS  \
-- 
2.43.0


From dcd5749409be34600ff13f85ce1a2f1034a40ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:43 +0000
Subject: [PATCH 55/88] fix: load channel keys and keep keys of any shape and
 in any character set

---
 src/keyfile.c  | 114 ++++++++++++++++++++++++++++++++-----------------
 src/keyfile.h  |   2 +
 src/settings.c |  20 ++++-----
 3 files changed, 87 insertions(+), 49 deletions(-)

diff --git a/src/keyfile.c b/src/keyfile.c
index 22a67e3..b3697ac 100644
--- a/src/keyfile.c
+++ b/src/keyfile.c
@@ -42,9 +42,12 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 		return FALSE;
 	}
 
+	/* Nicks and passwords can be in any character set */
+	g_io_channel_set_encoding(gio, NULL, NULL);
+
 	while (G_IO_STATUS_NORMAL == g_io_channel_read_line(gio, &ret, &nr, &term, NULL))
 	{
-		char **parts;
+		char *pass, *network;
 		struct keyfile_entry *e;
 		lineno++;
 
@@ -55,27 +58,27 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 
 		ret[term] = '\0';
 
-		parts = g_strsplit(ret, "\t", 3);
-		g_free(ret);
-
-		if (!parts[0] || !parts[1]) {
+		/* The password may contain tabs as well */
+		pass = strchr(ret, '\t');
+		if (pass == NULL) {
 			log_global(LOG_WARNING, "%s:%ld: Invalid syntax", filename, (long)lineno);
-			g_strfreev(parts);
+			g_free(ret);
 			continue;
 		}
+		*pass++ = '\0';
+
+		network = strrchr(pass, '\t');
+		if (network != NULL)
+			*network++ = '\0';
 
 		e = g_new0(struct keyfile_entry, 1);
-		e->nick = parts[0];
-		e->pass = parts[1];
-		if (!parts[2] || !strcmp(parts[2], "*")) {
-			e->network = NULL;
-			g_free(parts[2]);
-		} else {
-			e->network = parts[2];
-		}
+		e->nick = g_strdup(ret);
+		e->pass = g_strdup(pass);
+		if (network != NULL && strcmp(network, "*") != 0)
+			e->network = g_strdup(network);
 
 		*nicks = g_list_append(*nicks, e);
-		g_free(parts);
+		g_free(ret);
 	}
 
 	g_io_channel_shutdown(gio, TRUE, NULL);
@@ -84,41 +87,74 @@ gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks
 	return TRUE;
 }
 
-gboolean keyfile_write_file(GList *nicks, const char *header,
-							const char *filename)
+/**
+ * Replace the contents of a file. If that fails the old contents are kept.
+ */
+gboolean replace_file_contents(const char *filename, const char *data,
+							   gsize length)
 {
-	GList *gl;
+	char *dirname = g_path_get_dirname(filename);
+	char *basename = g_path_get_basename(filename);
+	/* Files starting with a dot are not taken for a network */
+	char *tmpname = g_strdup_printf("%s/.%s.new", dirname, basename);
+	gboolean ok = FALSE;
 	int fd;
 
-	fd = open(filename, O_WRONLY | O_CREAT, 0600);
+	fd = open(tmpname, O_WRONLY | O_CREAT | O_TRUNC, 0600);
 
-	if (fd == -1) {
-		log_global(LOG_WARNING, "Unable to write nickserv file `%s': %s", filename, strerror(errno));
-		return FALSE;
-	}
+	if (fd != -1) {
+		ok = TRUE;
+		while (ok && length > 0) {
+			ssize_t n = write(fd, data, length);
 
-	if (write(fd, header, strlen(header)) < 0) {
-		log_global(LOG_WARNING, "error writing file header: %s", strerror(errno));
-		close(fd);
-		return FALSE;
+			if (n >= 0) {
+				data += n;
+				length -= n;
+			} else if (errno != EINTR) {
+				ok = FALSE;
+			}
+		}
+
+		if (close(fd) != 0)
+			ok = FALSE;
+
+		if (ok && rename(tmpname, filename) != 0)
+			ok = FALSE;
+
+		if (!ok) {
+			int saved_errno = errno;
+
+			unlink(tmpname);
+			errno = saved_errno;
+		}
 	}
 
+	if (!ok)
+		log_global(LOG_WARNING, "Unable to write `%s': %s", filename, strerror(errno));
+
+	g_free(tmpname);
+	g_free(basename);
+	g_free(dirname);
+
+	return ok;
+}
+
+gboolean keyfile_write_file(GList *nicks, const char *header,
+							const char *filename)
+{
+	GList *gl;
+	GString *data = g_string_new(header);
+	gboolean ret;
+
 	for (gl = nicks; gl; gl = gl->next) {
 		struct keyfile_entry *n = gl->data;
-		char *line;
-
-		line = g_strdup_printf("%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
-		if (write(fd, line, strlen(line)) < 0) {
-			log_global(LOG_WARNING, "error writing line `%s': %s", line, strerror(errno));
-			g_free(line);
-			close(fd);
-			return FALSE;
-		}
 
-		g_free(line);
+		g_string_append_printf(data, "%s\t%s\t%s\n", n->nick, n->pass, n->network?n->network:"*");
 	}
 
-	close(fd);
+	ret = replace_file_contents(filename, data->str, data->len);
 
-	return TRUE;
+	g_string_free(data, TRUE);
+
+	return ret;
 }
diff --git a/src/keyfile.h b/src/keyfile.h
index b7c3642..6e94def 100644
--- a/src/keyfile.h
+++ b/src/keyfile.h
@@ -35,6 +35,8 @@ struct keyfile_entry {
 };
 
 gboolean keyfile_read_file(const char *filename, char commentchar, GList **nicks);
+gboolean replace_file_contents(const char *filename, const char *data,
+							   gsize length);
 gboolean keyfile_write_file(GList *entries, const char *header,
 							const char *filename);
 
diff --git a/src/settings.c b/src/settings.c
index f2b471f..5c61a2e 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -355,6 +355,7 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
 	GList *gl;
 	GList *channel_keys = NULL;
+	char *filename;
 
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
@@ -372,19 +373,18 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 
 	config_cleanup_networks_dir(cfg);
 
+	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
-		char *filename = g_build_filename(cfg->config_dir, "keys",
-									  NULL);
 		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
-		g_free(filename);
 
-		while (channel_keys) {
-			g_free(channel_keys->data);
-			channel_keys = channel_keys->next;
-		}
+		for (gl = channel_keys; gl; gl = gl->next)
+			g_free(gl->data);
 
 		g_list_free(channel_keys);
+	} else {
+		g_unlink(filename);
 	}
+	g_free(filename);
 
 	g_free(networksdir);
 }
@@ -658,11 +658,11 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	for (gl = channel_keys; gl; gl = gl->next) {
 		struct keyfile_entry *ke = gl->data;
 
-		if (!strcasecmp(ke->network, n->name)) {
-			struct channel_config *cc = config_find_add_channel(n, n->nick);
+		if (ke->network == NULL || !strcasecmp(ke->network, n->name)) {
+			struct channel_config *cc = config_find_add_channel(n, ke->nick);
 
 			g_free(cc->key);
-			cc->key = g_strdup(n->password);
+			cc->key = g_strdup(ke->pass);
 		}
 	}
 
-- 
2.43.0


From 564e21ef4bd4529173c1e65a64c799cb797f5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:11 +0000
Subject: [PATCH 56/88] fix: report failures to save the configuration and keep
 the old files then

---
 src/admin.c    | 11 ++++++--
 src/settings.c | 76 ++++++++++++++++++++++++++++----------------------
 src/settings.h |  2 +-
 3 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 3028bfc..7379408 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -337,6 +337,7 @@ static void cmd_next_server (admin_handle h, const char * const *args, void *use
 static void cmd_save_config (admin_handle h, const char * const *args, void *userdata)
 {
 	const char *adm_dir;
+	gboolean saved;
 	struct global *global = admin_get_global(h);
 	global_update_config(global);
 	if (global->restricted) {
@@ -344,9 +345,13 @@ static void cmd_save_config (admin_handle h, const char * const *args, void *use
 	} else {
 		adm_dir = args[1]?args[1]:global->config->config_dir;
 	}
-	save_configuration(global->config, adm_dir);
-	nickserv_save(global, adm_dir);
-	admin_out(h, "Configuration saved in %s", adm_dir);
+	saved = save_configuration(global->config, adm_dir);
+	if (!nickserv_save(global, adm_dir))
+		saved = FALSE;
+	if (saved)
+		admin_out(h, "Configuration saved in %s", adm_dir);
+	else
+		admin_out(h, "Unable to save the configuration in %s", adm_dir);
 }
 
 /**
diff --git a/src/settings.c b/src/settings.c
index 5c61a2e..5900607 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -124,26 +124,21 @@ void config_register_known_key(char *name)
 
 gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error)
 {
-	gsize length, nr;
+	gsize length;
 	char *data = g_key_file_to_data(kf, &length, error);
-	GIOChannel *gio;
+	gboolean ret;
 
 	if (!data)
 		return FALSE;
 
-	gio = g_io_channel_new_file(file, "w+", error);
-	if (!gio) {
-		g_free(data);
-		return FALSE;
-	}
-
-	g_io_channel_write_chars(gio, data, length, &nr, error);
+	ret = replace_file_contents(file, data, length);
+	if (!ret)
+		g_set_error(error, G_FILE_ERROR, g_file_error_from_errno(errno),
+					"%s", g_strerror(errno));
 
 	g_free(data);
 
-	g_io_channel_unref(gio);
-
-	return TRUE;
+	return ret;
 }
 
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
@@ -176,7 +171,7 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 	g_strfreev(values);
 }
 
-static void config_save_network(struct ctrlproxy_config *cfg,
+static gboolean config_save_network(struct ctrlproxy_config *cfg,
 								const char *dir, struct network_config *n, GList **channel_keys)
 {
 	GList *gl;
@@ -265,18 +260,19 @@ static void config_save_network(struct ctrlproxy_config *cfg,
 
 	g_free(autojoin_list);
 
-	if (n->filename != NULL) {
-		g_key_file_save_to_file(kf, n->filename, NULL);
-	}
+	if (n->filename != NULL)
+		return g_key_file_save_to_file(kf, n->filename, NULL);
+
+	return TRUE;
 }
 
-static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
+static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
 {
 	GList *gl;
 	char *filename;
 	GKeyFile *kf;
-	GError *error = NULL;
 	gboolean empty = TRUE;
+	gboolean ret = TRUE;
 
 	if (cfg->password != NULL)
 		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
@@ -341,41 +337,46 @@ static void config_save_listeners(struct ctrlproxy_config *cfg, const char *path
 	if (empty) {
 		unlink(filename);
 	} else {
-		if (!g_key_file_save_to_file(kf, filename, &error)) {
-			log_global(LOG_WARNING, "Unable to save to \"%s\": %s", filename, error->message);
-			g_error_free(error);
-		}
+		ret = g_key_file_save_to_file(kf, filename, NULL);
 	}
 
+	g_key_file_free(kf);
 	g_free(filename);
+
+	return ret;
 }
 
-static void config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
+static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *config_dir, GList *networks)
 {
 	char *networksdir = g_build_filename(config_dir, "networks", NULL);
 	GList *gl;
 	GList *channel_keys = NULL;
 	char *filename;
+	gboolean ret = TRUE;
 
 	for (gl = networks; gl; gl = gl->next) {
 		struct network_config *n = gl->data;
 		if (n->filename != NULL && !g_file_test(networksdir, G_FILE_TEST_IS_DIR)) {
 			if (g_mkdir(networksdir, 0700) != 0) {
 				log_global(LOG_ERROR, "Can't create networks directory '%s': %s", networksdir, strerror(errno));
-				return;
+				g_free(networksdir);
+				return FALSE;
 			}
 		}
 
 
-		if (!n->implicit)
-			config_save_network(cfg, networksdir, n, &channel_keys);
+		if (!n->implicit &&
+			!config_save_network(cfg, networksdir, n, &channel_keys))
+			ret = FALSE;
 	}
 
-	config_cleanup_networks_dir(cfg);
+	if (ret)
+		config_cleanup_networks_dir(cfg);
 
 	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
-		keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename);
+		if (!keyfile_write_file(channel_keys, CHANNEL_KEY_FILE_HEADER, filename))
+			ret = FALSE;
 
 		for (gl = channel_keys; gl; gl = gl->next)
 			g_free(gl->data);
@@ -387,6 +388,8 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
 	g_free(filename);
 
 	g_free(networksdir);
+
+	return ret;
 }
 
 /**
@@ -394,17 +397,19 @@ static void config_save_networks(struct ctrlproxy_config *cfg, const char *confi
  *
  * @param cfg The configuration to save.
  * @param configuration_dir Directory to save to.
+ * @return Whether everything could be saved.
  */
-void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_dir)
+gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configuration_dir)
 {
 	char *fn, **list;
 	int i;
 	GList *gl;
+	gboolean ret = TRUE;
 
 	if (!g_file_test(configuration_dir, G_FILE_TEST_IS_DIR)) {
 		if (g_mkdir(configuration_dir, 0700) != 0) {
 			log_global(LOG_ERROR, "Unable to open configuration directory '%s'\n", configuration_dir);
-			return;
+			return FALSE;
 		}
 	}
 
@@ -477,9 +482,11 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 		g_key_file_has_key(cfg->keyfile, "global", "report-time-offset", NULL))
 		g_key_file_set_integer(cfg->keyfile, "global", "report-time-offset", cfg->report_time_offset);
 
-	config_save_networks(cfg, configuration_dir, cfg->networks);
+	if (!config_save_networks(cfg, configuration_dir, cfg->networks))
+		ret = FALSE;
 
-	config_save_listeners(cfg, configuration_dir);
+	if (!config_save_listeners(cfg, configuration_dir))
+		ret = FALSE;
 
 	config_save_log(cfg->log_file, cfg);
 
@@ -502,8 +509,11 @@ void save_configuration(struct ctrlproxy_config *cfg, const char *configuration_
 	g_free(list);
 
 	fn = g_build_filename(configuration_dir, "config", NULL);
-	g_key_file_save_to_file(cfg->keyfile, fn, NULL);
+	if (!g_key_file_save_to_file(cfg->keyfile, fn, NULL))
+		ret = FALSE;
 	g_free(fn);
+
+	return ret;
 }
 
 static void config_load_channel(struct network_config *n, GKeyFile *kf, const char *name)
diff --git a/src/settings.h b/src/settings.h
index 94f9313..6ebbe98 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -237,7 +237,7 @@ struct ctrlproxy_config {
 
 /* config.c */
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct network_config *network_config_init(struct ctrlproxy_config *cfg);
-G_MODULE_EXPORT void save_configuration(struct ctrlproxy_config *cfg, const char *name);
+G_MODULE_EXPORT gboolean save_configuration(struct ctrlproxy_config *cfg, const char *name);
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct ctrlproxy_config *load_configuration(const char *dir, gboolean from_source);
 G_GNUC_WARN_UNUSED_RESULT G_MODULE_EXPORT struct ctrlproxy_config *init_configuration(void);
 G_MODULE_EXPORT void free_config(struct ctrlproxy_config *);
-- 
2.43.0


From efd3b61a46af8161d86108ac38fd903d8ea8c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:55 +0000
Subject: [PATCH 57/88] fix: don't let settings that were unset come back after
 a restart

---
 src/admin.c    |   4 ++
 src/settings.c | 119 +++++++++++++++++++++----------------------------
 2 files changed, 56 insertions(+), 67 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 7379408..2dd0c38 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1627,6 +1627,10 @@ static gboolean password_set(admin_handle h, const char *value)
 		if (l->is_default) {
 			g_free(l->password);
 			l->password = g_strdup(value);
+
+			/* They are the same setting */
+			g_free(g->config->password);
+			g->config->password = g_strdup(value);
 			return TRUE;
 		}
 	}
diff --git a/src/settings.c b/src/settings.c
index 5900607..0b3c491 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -141,6 +141,16 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 	return ret;
 }
 
+/* Store a setting, or make sure it isn't there if it is not set */
+static void config_store_string(GKeyFile *kf, const char *group,
+								const char *key, const char *value)
+{
+	if (value != NULL)
+		g_key_file_set_string(kf, group, key, value);
+	else
+		g_key_file_remove_key(kf, group, key, NULL);
+}
+
 static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, const char *groupname)
 {
 	GList *gl;
@@ -153,15 +163,8 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 
 		values[i] = name;
 
-		if (ts->password)
-			g_key_file_set_string(kf, name, "password", ts->password);
-		else
-			g_key_file_remove_key(kf, name, "password", NULL);
-
-		if (ts->bind_address) {
-			g_key_file_set_string(kf, name, "bind", ts->bind_address);
-		} else
-			g_key_file_remove_key(kf, name, "bind", NULL);
+		config_store_string(kf, name, "password", ts->password);
+		config_store_string(kf, name, "bind", ts->bind_address);
 
 		i++;
 	}
@@ -186,18 +189,10 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 
 	kf = n->keyfile;
 
-	if (n->fullname != NULL)
-		g_key_file_set_string(kf, n->groupname, "fullname", n->fullname);
-	else
-		g_key_file_remove_key(kf, n->groupname, "fullname", NULL);
-	if (n->nick != NULL)
-		g_key_file_set_string(kf, n->groupname, "nick", n->nick);
-	else
-		g_key_file_remove_key(kf, n->groupname, "nick", NULL);
-	if (n->username != NULL)
-		g_key_file_set_string(kf, n->groupname, "username", n->username);
-	else
-		g_key_file_remove_key(kf, n->groupname, "username", NULL);
+	config_store_string(kf, n->groupname, "fullname", n->fullname);
+	config_store_string(kf, n->groupname, "nick", n->nick);
+	config_store_string(kf, n->groupname, "username", n->username);
+	config_store_string(kf, n->groupname, "password", n->password);
 	if (n->autocmd != NULL) {
 		g_key_file_set_string_list(kf, n->groupname, "autocmd", (const char *const*)n->autocmd,
 							   g_strv_length(n->autocmd));
@@ -207,8 +202,12 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 
 	if (n->queue_speed)
 		g_key_file_set_integer(kf, n->groupname, "queue-speed", n->queue_speed);
+	else
+		g_key_file_remove_key(kf, n->groupname, "queue-speed", NULL);
 	if (n->reconnect_interval != -1)
 		g_key_file_set_integer(kf, n->groupname, "reconnect-interval", n->reconnect_interval);
+	else
+		g_key_file_remove_key(kf, n->groupname, "reconnect-interval", NULL);
 
 	switch(n->type) {
 	case NETWORK_VIRTUAL:
@@ -219,11 +218,8 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 		break;
 	case NETWORK_TCP:
 		config_save_tcp_servers(n, kf, n->groupname);
-		if (n->type_settings.tcp.default_bind_address != NULL)
-			g_key_file_set_string(kf, n->groupname, "bind",
-								  n->type_settings.tcp.default_bind_address);
-		else
-			g_key_file_remove_key(kf, n->groupname, "bind", NULL);
+		config_store_string(kf, n->groupname, "bind",
+							n->type_settings.tcp.default_bind_address);
 		break;
 	default:break;
 	}
@@ -274,8 +270,7 @@ static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *
 	gboolean empty = TRUE;
 	gboolean ret = TRUE;
 
-	if (cfg->password != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "password", cfg->password);
+	config_store_string(cfg->keyfile, "global", "password", cfg->password);
 
 	if (cfg->auto_listener) {
 		g_key_file_set_boolean(cfg->keyfile, "global", "listener-auto", cfg->auto_listener);
@@ -291,17 +286,15 @@ static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *
 
 		if (l->is_default) {
 			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
-			if (l->address != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "bind", l->address);
+			config_store_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "password", l->password);
 
 			if (g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) || l->ssl)
 				g_key_file_set_boolean(cfg->keyfile, "global", "ssl", l->ssl);
 
-			if (l->network != NULL)
-				g_key_file_set_string(cfg->keyfile, "global", "default-network",
-								  l->network);
+			config_store_string(cfg->keyfile, "global", "default-network",
+								l->network);
 			cfg->default_listener = l;
 		} else {
 			char *tmp;
@@ -417,8 +410,7 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 		cfg->keyfile = g_key_file_new();
 
 	g_key_file_set_boolean(cfg->keyfile, "global", "autosave", cfg->autosave);
-	if (cfg->admin_user != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
+	config_store_string(cfg->keyfile, "global", "admin-user", cfg->admin_user);
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "admin-log", NULL) ||
 		!cfg->admin_log)
@@ -442,13 +434,11 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 	if (g_key_file_has_key(cfg->keyfile, "global", "create-implicit", NULL) || !cfg->create_implicit)
 		g_key_file_set_boolean(cfg->keyfile, "global", "create-implicit", cfg->create_implicit);
 
-	if (cfg->client_charset != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
-
-	if (cfg->replication)
-		g_key_file_set_string(cfg->keyfile, "global", "replication", cfg->replication);
-	if (cfg->motd_file != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "motd-file", cfg->motd_file);
+	config_store_string(cfg->keyfile, "global", "default-client-charset", cfg->client_charset);
+	config_store_string(cfg->keyfile, "global", "replication", cfg->replication);
+	/* Without this setting there is a default; no value means no MOTD */
+	g_key_file_set_string(cfg->keyfile, "global", "motd-file",
+						  cfg->motd_file != NULL?cfg->motd_file:"");
 
 	switch (cfg->report_time) {
 	case REPORT_TIME_ALWAYS:
@@ -465,18 +455,9 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 		break;
 	}
 
-	if (cfg->default_realname != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-fullname", cfg->default_realname);
-	else
-		g_key_file_remove_key(cfg->keyfile, "global", "default-fullname", NULL);
-	if (cfg->default_nick != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-nick", cfg->default_nick);
-	else
-		g_key_file_remove_key(cfg->keyfile, "global", "default-nick", NULL);
-	if (cfg->default_username != NULL)
-		g_key_file_set_string(cfg->keyfile, "global", "default-username", cfg->default_username);
-	else
-		g_key_file_remove_key(cfg->keyfile, "global", "default-username", NULL);
+	config_store_string(cfg->keyfile, "global", "default-fullname", cfg->default_realname);
+	config_store_string(cfg->keyfile, "global", "default-nick", cfg->default_nick);
+	config_store_string(cfg->keyfile, "global", "default-username", cfg->default_username);
 
 	if (cfg->report_time_offset != 0 ||
 		g_key_file_has_key(cfg->keyfile, "global", "report-time-offset", NULL))
@@ -497,7 +478,7 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		struct network_config *nc = gl->data;
 
-		if (nc->autoconnect) {
+		if (nc->autoconnect && !nc->implicit) {
 			list[i] = nc->name;
 			i++;
 		}
@@ -505,6 +486,8 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 
 	if (i > 0)
 		g_key_file_set_string_list(cfg->keyfile, "global", "autoconnect", (const gchar **)list, i);
+	else
+		g_key_file_remove_key(cfg->keyfile, "global", "autoconnect", NULL);
 
 	g_free(list);
 
@@ -1194,21 +1177,18 @@ static void config_save_auto_away(struct auto_away_config *d, struct ctrlproxy_c
 		g_key_file_set_boolean(kf, "global", "auto-away-enable", d->enabled);
 	}
 
-	if (d->message != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-message", d->message);
-	}
+	config_store_string(kf, "global", "auto-away-message", d->message);
+	config_store_string(kf, "global", "auto-away-nick", d->nick);
 
-	if (d->nick != NULL) {
-		g_key_file_set_string(kf, "global", "auto-away-nick", d->nick);
-	}
-
-	if (d->client_limit != -1) {
+	if (d->client_limit != -1)
 		g_key_file_set_integer(kf, "global", "auto-away-client-limit", d->client_limit);
-	}
+	else
+		g_key_file_remove_key(kf, "global", "auto-away-client-limit", NULL);
 
-	if (d->max_idle_time != -1) {
+	if (d->max_idle_time != -1)
 		g_key_file_set_integer(kf, "global", "auto-away-time", d->max_idle_time);
-	}
+	else
+		g_key_file_remove_key(kf, "global", "auto-away-time", NULL);
 }
 
 static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
@@ -1339,6 +1319,10 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "motd-file", NULL)) {
 		cfg->motd_file = g_key_file_get_string(kf, "global", "motd-file", NULL);
+		if (cfg->motd_file != NULL && cfg->motd_file[0] == '\0') {
+			g_free(cfg->motd_file);
+			cfg->motd_file = NULL;
+		}
 	} else if (from_source) {
 		cfg->motd_file = g_strdup("motd");
 	} else {
@@ -1399,7 +1383,8 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 		}
 	}
 
-	if (!g_file_test(cfg->motd_file, G_FILE_TEST_EXISTS)) {
+	if (cfg->motd_file != NULL &&
+		!g_file_test(cfg->motd_file, G_FILE_TEST_EXISTS)) {
 		log_global(LOG_ERROR, "Can't open MOTD file '%s' for reading", cfg->motd_file);
 	}
 
-- 
2.43.0


From bee0cebdb7bd4746ca12eecc512dfd8175979749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:32 +0000
Subject: [PATCH 58/88] fix: save custom logging

---
 src/settings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 0b3c491..adce8b2 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1033,7 +1033,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 }
 
 #define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
-#define STORE_SETTING(data, kf, section, prefix, name) g_key_file_set_string((kf), (section), prefix #name, (data)->name)
+#define STORE_SETTING(data, kf, section, prefix, name) config_store_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config)
@@ -1053,6 +1053,7 @@ static void config_save_log(struct log_file_config *data,
 			g_key_file_set_string(config->keyfile, "global", "logfile", data->logfilename);
 		}
 	} else {
+		g_key_file_set_string(config->keyfile, "global", "logging", "custom");
 		STORE_SETTING(data, config->keyfile, "global", "", logfilename);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", nickchange);
 		STORE_SETTING(data, config->keyfile, "global", "log-format-", topic);
-- 
2.43.0


From dd7f05033de931e3a9c9f950ea9eaa66e9e06a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:33 +0000
Subject: [PATCH 59/88] fix: save the access rules of the SOCKS listener

---
 src/settings.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index adce8b2..5256455 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -262,6 +262,27 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 	return TRUE;
 }
 
+static void config_save_listener_socks(GKeyFile *kf, const struct listener_config *l)
+{
+	GList *gl;
+	gchar **allows = g_new0(gchar *, g_list_length(l->allow_rules)+1);
+	int i = 0;
+
+	for (gl = l->allow_rules; gl; gl = gl->next) {
+		const struct allow_rule *r = gl->data;
+
+		if (r->password != NULL)
+			allows[i++] = g_strdup_printf("%s:%s", r->username, r->password);
+		else
+			allows[i++] = g_strdup(r->username);
+	}
+
+	g_key_file_set_string(kf, "socks", "port", l->port);
+	g_key_file_set_string_list(kf, "socks", "allow", (const gchar **)allows, i);
+
+	g_strfreev(allows);
+}
+
 static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *path)
 {
 	GList *gl;
@@ -284,8 +305,12 @@ static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *
 	for (gl = cfg->listeners; gl; gl = gl->next) {
 		struct listener_config *l = gl->data;
 
+		if (l->allow_rules != NULL)
+			config_save_listener_socks(cfg->keyfile, l);
+
 		if (l->is_default) {
-			g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
+			if (l->allow_rules == NULL)
+				g_key_file_set_string(cfg->keyfile, "global", "port", l->port);
 			config_store_string(cfg->keyfile, "global", "bind", l->address);
 			if (l->password != NULL)
 				g_key_file_set_string(cfg->keyfile, "global", "password", l->password);
@@ -296,7 +321,7 @@ static gboolean config_save_listeners(struct ctrlproxy_config *cfg, const char *
 			config_store_string(cfg->keyfile, "global", "default-network",
 								l->network);
 			cfg->default_listener = l;
-		} else {
+		} else if (l->allow_rules == NULL) {
 			char *tmp;
 			empty = FALSE;
 			if (!l->address)
@@ -799,6 +824,9 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	if (cfg->listeners == NULL ||
 		!((struct listener_config *)cfg->listeners->data)->is_default) {
 		l->is_default = TRUE;
+		l->password = g_key_file_get_string(kf, "global", "password", NULL);
+		l->address = g_key_file_get_string(kf, "global", "bind", NULL);
+		l->network = g_key_file_get_string(kf, "global", "default-network", NULL);
 	}
 
 	g_key_file_remove_key(kf, "socks", "port", NULL);
-- 
2.43.0


From e46de3782e321cb4b5371ece3b01d72ff87d71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:34 +0000
Subject: [PATCH 60/88] fix: save renamed and deleted networks, also into
 another directory

---
 src/settings.c | 91 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 80 insertions(+), 11 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 5256455..790c47a 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -44,7 +44,8 @@
 
 static GList *known_keys = NULL;
 
-static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg);
+static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg,
+										const char *networksdir);
 static void config_save_log(struct log_file_config *data,
 							struct ctrlproxy_config *config);
 static void config_save_auto_away(struct auto_away_config *d,
@@ -174,6 +175,24 @@ static void config_save_tcp_servers(struct network_config *n, GKeyFile *kf, cons
 	g_strfreev(values);
 }
 
+static void config_rename_network_group(struct network_config *n)
+{
+	gchar **keys = g_key_file_get_keys(n->keyfile, n->groupname, NULL, NULL);
+	int i;
+
+	for (i = 0; keys != NULL && keys[i] != NULL; i++) {
+		gchar *value = g_key_file_get_value(n->keyfile, n->groupname, keys[i], NULL);
+
+		g_key_file_set_value(n->keyfile, n->name, keys[i], value);
+		g_free(value);
+	}
+
+	g_strfreev(keys);
+	g_key_file_remove_group(n->keyfile, n->groupname, NULL);
+	g_free(n->groupname);
+	n->groupname = g_strdup(n->name);
+}
+
 static gboolean config_save_network(struct ctrlproxy_config *cfg,
 								const char *dir, struct network_config *n, GList **channel_keys)
 {
@@ -187,6 +206,10 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 		n->groupname = g_strdup(n->name);
 	}
 
+	/* A network in the main configuration file is known by its group there */
+	if (n->filename == NULL && strcmp(n->groupname, n->name) != 0)
+		config_rename_network_group(n);
+
 	kf = n->keyfile;
 
 	config_store_string(kf, n->groupname, "fullname", n->fullname);
@@ -256,8 +279,15 @@ static gboolean config_save_network(struct ctrlproxy_config *cfg,
 
 	g_free(autojoin_list);
 
-	if (n->filename != NULL)
-		return g_key_file_save_to_file(kf, n->filename, NULL);
+	if (n->filename != NULL) {
+		/* A network in a file of its own is known by the name of that file */
+		char *filename = g_build_filename(dir, n->name, NULL);
+		gboolean ret = g_key_file_save_to_file(kf, filename, NULL);
+
+		g_free(filename);
+
+		return ret;
+	}
 
 	return TRUE;
 }
@@ -388,8 +418,11 @@ static gboolean config_save_networks(struct ctrlproxy_config *cfg, const char *c
 			ret = FALSE;
 	}
 
-	if (ret)
-		config_cleanup_networks_dir(cfg);
+	/* Only clean up what is known to be a configuration directory */
+	filename = g_build_filename(config_dir, "config", NULL);
+	if (ret && g_file_test(filename, G_FILE_TEST_EXISTS))
+		config_cleanup_networks_dir(cfg, networksdir);
+	g_free(filename);
 
 	filename = g_build_filename(config_dir, "keys", NULL);
 	if (channel_keys != NULL) {
@@ -979,14 +1012,52 @@ struct network_config *config_find_network(struct ctrlproxy_config *cfg,
 
 void config_del_network(struct ctrlproxy_config *cfg, const char *name)
 {
-	cfg->networks = g_list_remove(cfg->networks, config_find_network(cfg, name));
+	struct network_config *nc = config_find_network(cfg, name);
+	GList *gl;
+
+	if (nc == NULL)
+		return;
+
+	cfg->networks = g_list_remove(cfg->networks, nc);
+
+	if (nc->keyfile == NULL || nc->filename != NULL)
+		return;
+
+	/* Remove it from the main configuration file */
+	g_key_file_remove_group(nc->keyfile, nc->groupname, NULL);
+
+	if (nc->type != NETWORK_TCP)
+		return;
+
+	for (gl = nc->type_settings.tcp.servers; gl; gl = gl->next) {
+		struct tcp_server_config *ts = gl->data;
+		char *url = irc_create_url(ts->host, ts->port, ts->ssl);
+
+		g_key_file_remove_group(nc->keyfile, url, NULL);
+		g_free(url);
+	}
 }
 
 #define IS_SPECIAL_FILE(name) (name[0] == '.' || name[strlen(name)-1] == '~')
 
-static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
+/* Whether a file in the networks directory is that of a network */
+static gboolean config_network_has_file(struct ctrlproxy_config *cfg, const char *name)
+{
+	GList *gl;
+
+	for (gl = cfg->networks; gl; gl = gl->next) {
+		struct network_config *nc = gl->data;
+
+		if (nc->filename != NULL && !strcmp(nc->name, name))
+			return TRUE;
+	}
+
+	return FALSE;
+}
+
+static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg,
+										const char *networksdir)
 {
-	char *networksdir = g_build_filename(cfg->config_dir, "networks", NULL);
 	GDir *dir;
 	const char *name;
 
@@ -997,7 +1068,7 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 
 	while ((name = g_dir_read_name(dir))) {
 		char *path;
-		if (IS_SPECIAL_FILE(name) || config_find_network(cfg, name)) {
+		if (IS_SPECIAL_FILE(name) || config_network_has_file(cfg, name)) {
 			continue;
 		}
 
@@ -1006,8 +1077,6 @@ static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg)
 		g_free(path);
 	}
 
-	g_free(networksdir);
-
 	g_dir_close(dir);
 }
 
-- 
2.43.0


From 00e1a4af4cc2dd1f849da38f9f518f2291c6a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:40 +0000
Subject: [PATCH 61/88] fix: don't add networks twice or fail on bad URLs in
 autoconnect, and keep their settings

---
 src/settings.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index 790c47a..a65b39a 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -44,6 +44,9 @@
 
 static GList *known_keys = NULL;
 
+struct network_config *config_find_network(struct ctrlproxy_config *cfg,
+										   const char *name);
+
 static void config_cleanup_networks_dir(struct ctrlproxy_config *cfg,
 										const char *networksdir);
 static void config_save_log(struct log_file_config *data,
@@ -599,7 +602,9 @@ static void config_load_servers(struct network_config *n)
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
 
-		g_key_file_remove_group(n->keyfile, servers[i], NULL);
+		/* A network can be named after its server */
+		if (!g_key_file_has_key(n->keyfile, servers[i], "servers", NULL))
+			g_key_file_remove_group(n->keyfile, servers[i], NULL);
 	}
 
 	g_strfreev(servers);
@@ -776,14 +781,14 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 	struct network_config *nc;
 	struct tcp_server_config *tc;
 
+	nc = config_find_network(cfg, name);
+	if (nc != NULL)
+		return nc;
+
 	for (gl = cfg->networks; gl; gl = gl->next) {
 		GList *gl1;
 		nc = gl->data;
 
-		if (strcasecmp(nc->name, name) == 0) {
-			return nc;
-		}
-
 		if (nc->type != NETWORK_TCP) {
 			continue;
 		}
@@ -803,6 +808,7 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 			tmp = irc_create_url(sc->host, sc->port, FALSE);
 
 			if (strcasecmp(tmp, name) == 0) {
+				g_free(tmp);
 				return nc;
 			}
 
@@ -810,21 +816,20 @@ static struct network_config *find_create_network_config(struct ctrlproxy_config
 		}
 	}
 
-	nc = network_config_init(cfg);
-	nc->name = g_strdup(name);
-	nc->autoconnect = FALSE;
-	nc->reconnect_interval = -1;
-	nc->type = NETWORK_TCP;
 	tc = g_new0(struct tcp_server_config, 1);
 	if (!irc_parse_url(name, &tc->host, &tc->port, &tc->ssl)) {
 		log_global(LOG_ERROR, "Error parsing server URL %s", name);
 		g_free(tc);
-		free_config(cfg);
 		return NULL;
 	}
-	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
-	cfg->networks = g_list_append(cfg->networks, nc);
+	/* This adds it to the configuration as well */
+	nc = network_config_init(cfg);
+	nc->name = g_strdup(name);
+	nc->autoconnect = FALSE;
+	nc->reconnect_interval = -1;
+	nc->type = NETWORK_TCP;
+	nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, tc);
 
 	return nc;
 }
@@ -1113,8 +1118,9 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 			continue;
 		}
 
-		if (!strncasecmp(groups[i], "irc://", strlen("irc://")) ||
-			!strncasecmp(groups[i], "ircs://", strlen("ircs://"))) {
+		if ((!strncasecmp(groups[i], "irc://", strlen("irc://")) ||
+			 !strncasecmp(groups[i], "ircs://", strlen("ircs://"))) &&
+			!g_key_file_has_key(cfg->keyfile, groups[i], "servers", NULL)) {
 			continue;
 		}
 
@@ -1547,8 +1553,8 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
 
-		g_assert(nc);
-		nc->autoconnect = TRUE;
+		if (nc != NULL)
+			nc->autoconnect = TRUE;
 	}
 
 	g_strfreev(autoconnect_list);
-- 
2.43.0


From 0bb4aaaadac6b12d57a77e10458736b91fbbaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:54 +0000
Subject: [PATCH 62/88] fix: load settings that are not UTF-8

---
 src/settings.c | 192 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 141 insertions(+), 51 deletions(-)

diff --git a/src/settings.c b/src/settings.c
index a65b39a..fab1590 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -145,6 +145,96 @@ gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error
 	return ret;
 }
 
+/**
+ * Interpret the value of a setting from a key file, which can be in any
+ * character set.
+ *
+ * @param raw Value as it appears in the file
+ * @param separator Character that ends the value, or '\0'
+ * @param end Set to the rest of the value, or NULL at the end
+ */
+static char *config_unescape(const char *raw, char separator, const char **end)
+{
+	GString *ret = g_string_new("");
+	const char *p;
+
+	for (p = raw; *p != '\0' && (separator == '\0' || *p != separator); p++) {
+		if (*p != '\\' || p[1] == '\0') {
+			g_string_append_c(ret, *p);
+			continue;
+		}
+
+		p++;
+		switch (*p) {
+		case 's': g_string_append_c(ret, ' '); break;
+		case 'n': g_string_append_c(ret, '\n'); break;
+		case 't': g_string_append_c(ret, '\t'); break;
+		case 'r': g_string_append_c(ret, '\r'); break;
+		case '\\': g_string_append_c(ret, '\\'); break;
+		default:
+			if (separator == '\0' || *p != separator)
+				g_string_append_c(ret, '\\');
+			g_string_append_c(ret, *p);
+			break;
+		}
+	}
+
+	if (end != NULL)
+		*end = (*p != '\0')?p+1:NULL;
+
+	return g_string_free(ret, FALSE);
+}
+
+/* Like g_key_file_get_string(), but for strings that may not be UTF-8 */
+static char *config_get_string(GKeyFile *kf, const char *group, const char *key)
+{
+	char *ret = g_key_file_get_string(kf, group, key, NULL);
+	char *raw;
+
+	if (ret != NULL)
+		return ret;
+
+	raw = g_key_file_get_value(kf, group, key, NULL);
+	if (raw == NULL)
+		return NULL;
+
+	ret = config_unescape(raw, '\0', NULL);
+	g_free(raw);
+
+	return ret;
+}
+
+/* Like g_key_file_get_string_list(), but for strings that may not be UTF-8 */
+static char **config_get_string_list(GKeyFile *kf, const char *group, const char *key, gsize *size)
+{
+	char **ret = g_key_file_get_string_list(kf, group, key, size, NULL);
+	char *raw;
+	const char *p;
+	gsize n = 0;
+
+	if (ret != NULL)
+		return ret;
+
+	raw = g_key_file_get_value(kf, group, key, NULL);
+	if (raw == NULL)
+		return NULL;
+
+	for (p = raw; p != NULL && *p != '\0'; ) {
+		ret = g_renew(char *, ret, n+2);
+		ret[n++] = config_unescape(p, ';', &p);
+		ret[n] = NULL;
+	}
+	g_free(raw);
+
+	if (ret == NULL)
+		ret = g_new0(char *, 1);
+
+	if (size != NULL)
+		*size = n;
+
+	return ret;
+}
+
 /* Store a setting, or make sure it isn't there if it is not set */
 static void config_store_string(GKeyFile *kf, const char *group,
 								const char *key, const char *value)
@@ -566,7 +656,7 @@ static void config_load_channel(struct network_config *n, GKeyFile *kf, const ch
 
 	ch->name = g_strdup(name);
 	if (g_key_file_has_key(kf, name, "key", NULL))
-		ch->key = g_key_file_get_string(kf, name, "key", NULL);
+		ch->key = config_get_string(kf, name, "key");
 
 	if (g_key_file_has_key(kf, name, "autojoin", NULL))
 		ch->autojoin = g_key_file_get_boolean(kf, name, "autojoin", NULL);
@@ -580,7 +670,7 @@ static void config_load_servers(struct network_config *n)
 	char **servers;
 	int i;
 
-	servers = g_key_file_get_string_list(n->keyfile, n->groupname, "servers", &size, NULL);
+	servers = config_get_string_list(n->keyfile, n->groupname, "servers", &size);
 
 	if (!servers) {
 		return;
@@ -594,11 +684,11 @@ static void config_load_servers(struct network_config *n)
 			continue;
 		}
 
-		s->password = g_key_file_get_string(n->keyfile, servers[i], "password", NULL);
+		s->password = config_get_string(n->keyfile, servers[i], "password");
 		if (g_key_file_has_key(n->keyfile, servers[i], "ssl", NULL))
 			s->ssl = g_key_file_get_boolean(n->keyfile, servers[i], "ssl", NULL);
 
-		s->bind_address = g_key_file_get_string(n->keyfile, servers[i], "bind", NULL);
+		s->bind_address = config_get_string(n->keyfile, servers[i], "bind");
 
 		n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, s);
 
@@ -645,14 +735,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "fullname", NULL)) {
 		g_free(n->fullname);
-		n->fullname = g_key_file_get_string(kf, groupname, "fullname", NULL);
+		n->fullname = config_get_string(kf, groupname, "fullname");
 		if (!strcmp(n->fullname, "") || n->fullname[0] == ' ')
 			log_global(LOG_WARNING, "Invalid fullname `%s' set for network `%s'", n->fullname, n->name);
 	}
 
 	if (g_key_file_has_key(kf, groupname, "nick", NULL)) {
 		g_free(n->nick);
-		n->nick = g_key_file_get_string(kf, groupname, "nick", NULL);
+		n->nick = config_get_string(kf, groupname, "nick");
 		if (!strcmp(n->nick, "") || n->nick[0] == ' ')
 			log_global(LOG_WARNING, "Invalid nick name `%s' set for `%s'", n->nick, n->name);
 	}
@@ -667,7 +757,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "username", NULL)) {
 		g_free(n->username);
-		n->username = g_key_file_get_string(kf, groupname, "username", NULL);
+		n->username = config_get_string(kf, groupname, "username");
 		if (!strcmp(n->username, "") || n->username[0] == ' ')
 			log_global(LOG_WARNING, "Invalid username `%s' set for network `%s'", n->username, n->name);
 	}
@@ -678,12 +768,12 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	if (g_key_file_has_key(kf, groupname, "password", NULL)) {
 		g_free(n->password);
-		n->password = g_key_file_get_string(kf, groupname, "password", NULL);
+		n->password = config_get_string(kf, groupname, "password");
 	}
 
 	if (g_key_file_has_key(kf, groupname, "autocmd", NULL)) {
 		g_strfreev(n->autocmd);
-		n->autocmd = g_key_file_get_string_list(n->keyfile, groupname, "autocmd", &size, NULL);
+		n->autocmd = config_get_string_list(n->keyfile, groupname, "autocmd", &size);
 	}
 
 	n->name = g_strdup(networkname);
@@ -697,14 +787,14 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 
 	switch (n->type) {
 	case NETWORK_TCP:
-		n->type_settings.tcp.default_bind_address = g_key_file_get_string(kf, groupname, "bind", NULL);
+		n->type_settings.tcp.default_bind_address = config_get_string(kf, groupname, "bind");
 		config_load_servers(n);
 		break;
 	case NETWORK_PROGRAM:
-		n->type_settings.program_location = g_key_file_get_string(kf, groupname, "program", NULL);
+		n->type_settings.program_location = config_get_string(kf, groupname, "program");
 		break;
 	case NETWORK_VIRTUAL:
-		n->type_settings.virtual_name = g_key_file_get_string(kf, groupname, "virtual", NULL);
+		n->type_settings.virtual_name = config_get_string(kf, groupname, "virtual");
 		break;
 	case NETWORK_IOCHANNEL:
 		/* Don't store */
@@ -725,7 +815,7 @@ static struct network_config *config_load_network_keyfile_group(struct ctrlproxy
 	if (g_key_file_has_key(n->keyfile, groupname, "autojoin", NULL)) {
 		char **autojoin_channels;
 		gsize i;
-		autojoin_channels = g_key_file_get_string_list(n->keyfile, groupname, "autojoin", &size, NULL);
+		autojoin_channels = config_get_string_list(n->keyfile, groupname, "autojoin", &size);
 		for (i = 0; i < size; i++) {
 			struct channel_config *cc = config_find_add_channel(n, autojoin_channels[i]);
 
@@ -841,7 +931,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	GKeyFile *kf = cfg->keyfile;
 	struct listener_config *l;
 
-	allows = g_key_file_get_string_list(kf, "socks", "allow", &size, NULL);
+	allows = config_get_string_list(kf, "socks", "allow", &size);
 
 	if (allows == NULL) {
 		return;
@@ -852,7 +942,7 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	l = g_new0(struct listener_config, 1);
 
 	if (g_key_file_has_key(kf, "socks", "port", NULL)) {
-		l->port = g_key_file_get_string(kf, "socks", "port", NULL);
+		l->port = config_get_string(kf, "socks", "port");
 	} else {
 		l->port = g_strdup_printf("%d", DEFAULT_SOCKS_PORT);
 	}
@@ -862,9 +952,9 @@ static void config_load_listeners_socks(struct ctrlproxy_config *cfg)
 	if (cfg->listeners == NULL ||
 		!((struct listener_config *)cfg->listeners->data)->is_default) {
 		l->is_default = TRUE;
-		l->password = g_key_file_get_string(kf, "global", "password", NULL);
-		l->address = g_key_file_get_string(kf, "global", "bind", NULL);
-		l->network = g_key_file_get_string(kf, "global", "default-network", NULL);
+		l->password = config_get_string(kf, "global", "password");
+		l->address = config_get_string(kf, "global", "bind");
+		l->network = config_get_string(kf, "global", "default-network");
 	}
 
 	g_key_file_remove_key(kf, "socks", "port", NULL);
@@ -898,10 +988,10 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "listener", "password", NULL)) {
 		g_key_file_set_string(cfg->keyfile, "global", "password",
-							  g_key_file_get_string(cfg->keyfile, "listener", "password", NULL));
+							  config_get_string(cfg->keyfile, "listener", "password"));
 		g_key_file_remove_key(cfg->keyfile, "listener", "password", NULL);
 	}
-	cfg->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
+	cfg->password = config_get_string(cfg->keyfile, "global", "password");
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "listener-auto", NULL)) {
 		cfg->auto_listener = g_key_file_get_boolean(cfg->keyfile, "global", "listener-auto", NULL);
@@ -919,9 +1009,9 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 
 	if (g_key_file_has_key(cfg->keyfile, "global", "port", NULL)) {
 		struct listener_config *l = g_new0(struct listener_config, 1);
-		l->port = g_key_file_get_string(cfg->keyfile, "global", "port", NULL);
-		l->password = g_key_file_get_string(cfg->keyfile, "global", "password", NULL);
-		l->address = g_key_file_get_string(cfg->keyfile, "global", "bind", NULL);
+		l->port = config_get_string(cfg->keyfile, "global", "port");
+		l->password = config_get_string(cfg->keyfile, "global", "password");
+		l->address = config_get_string(cfg->keyfile, "global", "bind");
 		l->ssl = g_key_file_has_key(cfg->keyfile, "global", "ssl", NULL) &&
 				 g_key_file_get_boolean(cfg->keyfile, "global", "ssl", NULL);
 
@@ -929,16 +1019,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, cfg->keyfile, "global");
 			if (g_key_file_has_key(cfg->keyfile, "global", "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(cfg->keyfile, "global", "certfile", NULL);
+				l->certfile = config_get_string(cfg->keyfile, "global", "certfile");
 			}
 			if (g_key_file_has_key(cfg->keyfile, "global", "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(cfg->keyfile, "global", "keyfile", NULL);
+				l->keyfile = config_get_string(cfg->keyfile, "global", "keyfile");
 			}
 		}
 #endif
 		l->is_default = TRUE;
 
-		l->network = g_key_file_get_string(cfg->keyfile, "global", "default-network", NULL);
+		l->network = config_get_string(cfg->keyfile, "global", "default-network");
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
 	}
@@ -974,7 +1064,7 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 			l->address = NULL;
 		}
 
-		l->password = g_key_file_get_string(kf, groups[i], "password", NULL);
+		l->password = config_get_string(kf, groups[i], "password");
 
 		if (g_key_file_has_key(kf, groups[i], "ssl", NULL))
 			l->ssl = g_key_file_get_boolean(kf, groups[i], "ssl", NULL);
@@ -983,16 +1073,16 @@ static void config_load_listeners(struct ctrlproxy_config *cfg)
 		if (l->ssl) {
 			l->ssl_credentials = ssl_create_server_credentials(cfg->config_dir, kf, groups[i]);
 			if (g_key_file_has_key(kf, groups[i], "certfile", NULL)) {
-				l->certfile = g_key_file_get_string(kf, groups[i], "certfile", NULL);
+				l->certfile = config_get_string(kf, groups[i], "certfile");
 			}
 			if (g_key_file_has_key(kf, groups[i], "keyfile", NULL)) {
-				l->keyfile = g_key_file_get_string(kf, groups[i], "keyfile", NULL);
+				l->keyfile = config_get_string(kf, groups[i], "keyfile");
 			}
 		}
 #endif
 
 		if (g_key_file_has_key(kf, groups[i], "network", NULL)) {
-			l->network = g_key_file_get_string(kf, groups[i], "network", NULL);
+			l->network = config_get_string(kf, groups[i], "network");
 		}
 
 		cfg->listeners = g_list_append(cfg->listeners, l);
@@ -1135,7 +1225,7 @@ static void config_load_networks(struct ctrlproxy_config *cfg, GList *channel_ke
 	g_strfreev(groups);
 }
 
-#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = g_key_file_get_string((kf), (section), prefix #name, NULL)
+#define FETCH_SETTING(data, kf, section, prefix, name) (data)->name = config_get_string((kf), (section), prefix #name)
 #define STORE_SETTING(data, kf, section, prefix, name) config_store_string((kf), (section), prefix #name, (data)->name)
 
 static void config_save_log(struct log_file_config *data,
@@ -1179,7 +1269,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 	char *logging = NULL;
 
 	if (g_key_file_has_key(kf, "global", "logging", NULL)) {
-		logging = g_key_file_get_string(kf, "global", "logging", NULL);
+		logging = config_get_string(kf, "global", "logging");
 	}
 
 	if (g_key_file_has_group(kf, "log-custom")) {
@@ -1241,12 +1331,12 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->nickchange = "%h:%M -!- %n is now known as %r";
 
 		if (g_key_file_has_key(kf, "global", "logfile", NULL)) {
-			data->logfilename= g_key_file_get_string(kf, "global", "logfile", NULL);
+			data->logfilename= config_get_string(kf, "global", "logfile");
 		} else if (g_key_file_has_key(kf, "global", "logdir", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "global", "logdir", NULL);
+			data->logbasedir = config_get_string(kf, "global", "logdir");
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else if (g_key_file_has_key(kf, "log-irssi", "logfile", NULL)) {
-			data->logbasedir = g_key_file_get_string(kf, "log-irssi", "logfile", NULL);
+			data->logbasedir = config_get_string(kf, "log-irssi", "logfile");
 			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
 		} else {
 			data->logbasedir = g_build_filename(config->config_dir,
@@ -1299,8 +1389,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 {
 	if (g_key_file_has_group(kf, "auto-away")) {
 		d->enabled = TRUE;
-		d->message = g_key_file_get_string(kf, "auto-away", "message", NULL);
-		d->nick = g_key_file_get_string(kf, "auto-away", "nick", NULL);
+		d->message = config_get_string(kf, "auto-away", "message");
+		d->nick = config_get_string(kf, "auto-away", "nick");
 		if (g_key_file_has_key(kf, "auto-away", "client_limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "auto-away", "client_limit", NULL);
 			if (g_key_file_has_key(kf, "auto-away", "only_noclient", NULL))
@@ -1321,8 +1411,8 @@ static void config_load_auto_away(struct auto_away_config *d, GKeyFile *kf)
 	} else {
 		if (g_key_file_has_key(kf, "global", "auto-away-enable", NULL))
 			d->enabled = g_key_file_get_boolean(kf, "global", "auto-away-enable", NULL);
-		d->message = g_key_file_get_string(kf, "global", "auto-away-message", NULL);
-		d->nick = g_key_file_get_string(kf, "global", "auto-away-nick", NULL);
+		d->message = config_get_string(kf, "global", "auto-away-message");
+		d->nick = config_get_string(kf, "global", "auto-away-nick");
 		if (g_key_file_has_key(kf, "global", "auto-away-client-limit", NULL)) {
 			d->client_limit = g_key_file_get_integer(kf, "global", "auto-away-client-limit", NULL);
 		} else
@@ -1384,7 +1474,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "keytab", NULL)) {
 		char *keytab;
-		keytab = g_key_file_get_string(kf, "global", "keytab", NULL);
+		keytab = config_get_string(kf, "global", "keytab");
 #ifdef HAVE_GSSKRB5_REGISTER_ACCEPTOR_IDENTITY
 		gsskrb5_register_acceptor_identity(keytab);
 #endif
@@ -1398,11 +1488,11 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 
-	cfg->replication = g_key_file_get_string(kf, "global", "replication", NULL);
+	cfg->replication = config_get_string(kf, "global", "replication");
 
 	cfg->report_time = REPORT_TIME_NEVER;
 	if (g_key_file_has_key(kf, "global", "report-time", NULL)) {
-		char *setting = g_key_file_get_string(kf, "global", "report-time", NULL);
+		char *setting = config_get_string(kf, "global", "report-time");
 		if (!strcasecmp(setting, "never") || !strcasecmp(setting, "false")) {
 			cfg->report_time = REPORT_TIME_NEVER;
 		} else if (!strcasecmp(setting, "always")) {
@@ -1422,7 +1512,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "motd-file", NULL)) {
-		cfg->motd_file = g_key_file_get_string(kf, "global", "motd-file", NULL);
+		cfg->motd_file = config_get_string(kf, "global", "motd-file");
 		if (cfg->motd_file != NULL && cfg->motd_file[0] == '\0') {
 			g_free(cfg->motd_file);
 			cfg->motd_file = NULL;
@@ -1434,13 +1524,13 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "client", "charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "client", "charset", NULL);
+		cfg->client_charset = config_get_string(kf, "client", "charset");
 		g_key_file_remove_key(cfg->keyfile, "client", "charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "client-charset", NULL);
+		cfg->client_charset = config_get_string(kf, "global", "client-charset");
 		g_key_file_remove_key(cfg->keyfile, "global", "client-charset", NULL); /* deprecated */
 	} else if (g_key_file_has_key(kf, "global", "default-client-charset", NULL)) {
-		cfg->client_charset = g_key_file_get_string(kf, "global", "default-client-charset", NULL);
+		cfg->client_charset = config_get_string(kf, "global", "default-client-charset");
 	} else {
 		cfg->client_charset = NULL;
 	}
@@ -1465,7 +1555,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-username", NULL)) {
 		g_free(cfg->default_username);
-		cfg->default_username = g_key_file_get_string(kf, "global", "default-username", NULL);
+		cfg->default_username = config_get_string(kf, "global", "default-username");
 		if (!strcmp(cfg->default_username, "") || cfg->default_username[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default username `%s' set", cfg->default_username);
 		}
@@ -1473,7 +1563,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-fullname", NULL)) {
 		g_free(cfg->default_realname);
-		cfg->default_realname = g_key_file_get_string(kf, "global", "default-fullname", NULL);
+		cfg->default_realname = config_get_string(kf, "global", "default-fullname");
 		if (!strcmp(cfg->default_realname, "") || cfg->default_realname[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid default fullname `%s' set", cfg->default_realname);
 		}
@@ -1481,7 +1571,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 
 	if (g_key_file_has_key(kf, "global", "default-nick", NULL)) {
 		g_free(cfg->default_nick);
-		cfg->default_nick = g_key_file_get_string(kf, "global", "default-nick", NULL);
+		cfg->default_nick = config_get_string(kf, "global", "default-nick");
 		if (!strcmp(cfg->default_nick, "") || cfg->default_nick[0] == ' ') {
 			log_global(LOG_WARNING, "Invalid nick name `%s' set", cfg->default_nick);
 		}
@@ -1502,7 +1592,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	}
 
 	if (g_key_file_has_key(kf, "global", "admin-user", NULL)) {
-		cfg->admin_user = g_key_file_get_string(kf, "global", "admin-user", NULL);
+		cfg->admin_user = config_get_string(kf, "global", "admin-user");
 	}
 
 	cfg->admin_log = TRUE;
@@ -1548,7 +1638,7 @@ struct ctrlproxy_config *load_configuration(const char *dir,
 	g_strfreev(keys);
 
 	size = 0;
-	autoconnect_list = g_key_file_get_string_list(kf, "global", "autoconnect", &size, NULL);
+	autoconnect_list = config_get_string_list(kf, "global", "autoconnect", &size);
 
 	for (i = 0; i < size; i++) {
 		struct network_config *nc = find_create_network_config(cfg, autoconnect_list[i]);
-- 
2.43.0


From 6cec770a665444757801733ce4436c97df7fdf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:55 +0000
Subject: [PATCH 63/88] fix: keep IPv6 addresses of servers in the
 configuration

---
 libirc/url.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libirc/url.c b/libirc/url.c
index 566847b..966b5b9 100644
--- a/libirc/url.c
+++ b/libirc/url.c
@@ -23,6 +23,9 @@
 
 char *irc_create_url(const char *server, const char *port, gboolean ssl)
 {
+	/* The port is needed to tell where an IPv6 address ends */
+	if (strchr(server, ':') != NULL)
+		return g_strdup_printf("%s://%s:%s", (ssl?"ircs":"irc"), server, port);
 	if (ssl && (!strcmp("ircs", port) || !strcmp("994", port)))
 		return g_strdup_printf("ircs://%s", server);
 	if (!ssl && (!strcmp("ircd", port) || !strcmp("6667", port)))
@@ -50,8 +53,8 @@ gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ss
 	}
 
 	q = strchr(url, '/');
-	p = strchr(url, ':');
-	if (p != NULL && (q == NULL || p < q)) {
+	p = (q != NULL)?g_strrstr_len(url, q - url, ":"):strrchr(url, ':');
+	if (p != NULL) {
 		*port = g_strdup(p+1);
 		*server = g_strndup(url, p-url);
 		return TRUE;
-- 
2.43.0


From 12a0c63fd517497191831568b6ac61648608a76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:56 +0000
Subject: [PATCH 64/88] fix: keep configured channel keys while the channel's
 modes are not known

---
 src/gen_config.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gen_config.c b/src/gen_config.c
index 8885ada..f6f02b4 100644
--- a/src/gen_config.c
+++ b/src/gen_config.c
@@ -70,10 +70,11 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 			cc->name = g_strdup(cs->name);
 			nc->channels = g_list_append(nc->channels, cc);
 		}
-		g_free(cc->key);
-		cc->key = NULL;
-		if (cs->chanmode_option['k'])
+		/* Keep the key that is configured until the modes are known */
+		if (cs->chanmode_option['k'] != NULL || cs->mode_received) {
+			g_free(cc->key);
 			cc->key = g_strdup(cs->chanmode_option['k']);
+		}
 		cc->autojoin = TRUE;
 	}
 }
-- 
2.43.0


From 0b6e64276f3f73cd4fb99f642f905ad7c930404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:25 +0000
Subject: [PATCH 65/88] fix: keep listeners with their network when it is
 renamed

---
 src/admin.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index 2dd0c38..e843d11 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -394,6 +394,7 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 {
 	struct irc_network *n;
 	struct network_config *nc;
+	GList *gl;
 
 	if (!valid_network_name(newname)) {
 		admin_out(h, "Invalid network name `%s'", newname);
@@ -414,6 +415,16 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 
 	nc = n->private_data;
 
+	/* Listeners refer to their network by name */
+	for (gl = admin_get_global(h)->config->listeners; gl; gl = gl->next) {
+		struct listener_config *l = gl->data;
+
+		if (l->network != NULL && !g_ascii_strcasecmp(l->network, n->name)) {
+			g_free(l->network);
+			l->network = g_strdup(newname);
+		}
+	}
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
 
-- 
2.43.0


From 5c2645f234cf56b4d57ce31cd511bfc04fb8f4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:27 +0000
Subject: [PATCH 66/88] fix: don't abort on line ends in log entries for the
 administration channel

---
 src/admin.c    | 2 ++
 src/main.c     | 2 +-
 src/settings.c | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index e843d11..c09f475 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1098,6 +1098,8 @@ void admin_log(enum log_level level, const struct irc_network *n, const struct i
 						  c?"/":"",
 						  c?c->description:"",
 						  n?")":"");
+	/* The entry has to fit in one IRC line */
+	g_strdelimit(tmp, "\r\n", ' ');
 
 	for (gl = my_global->networks; gl; gl = gl->next) {
 		struct irc_network *network = gl->data;
diff --git a/src/main.c b/src/main.c
index ca97f4e..4205f8f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -374,7 +374,7 @@ int main(int argc, char **argv)
 		signal(SIGTSTP, SIG_IGN);
 #endif
 		if (daemon(1, 0) < 0) {
-			log_global(LOG_ERROR, "Unable to daemonize\n");
+			log_global(LOG_ERROR, "Unable to daemonize");
 			g_free(config_dir);
 			return -1;
 		}
diff --git a/src/settings.c b/src/settings.c
index fab1590..62a2bfc 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -552,7 +552,7 @@ gboolean save_configuration(struct ctrlproxy_config *cfg, const char *configurat
 
 	if (!g_file_test(configuration_dir, G_FILE_TEST_IS_DIR)) {
 		if (g_mkdir(configuration_dir, 0700) != 0) {
-			log_global(LOG_ERROR, "Unable to open configuration directory '%s'\n", configuration_dir);
+			log_global(LOG_ERROR, "Unable to open configuration directory '%s'", configuration_dir);
 			return FALSE;
 		}
 	}
-- 
2.43.0


From 093232764ab35a7ee0c2e5419a340f917ea61b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:11 +0000
Subject: [PATCH 67/88] fix: prefer NickServ passwords of a network to those
 for all networks

---
 src/nickserv.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/nickserv.c b/src/nickserv.c
index 2d0e012..966283d 100644
--- a/src/nickserv.c
+++ b/src/nickserv.c
@@ -36,6 +36,8 @@
 const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 {
 	GList *gl;
+	const char *pass = NULL;
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		struct keyfile_entry *e = gl->data;
 
@@ -43,15 +45,16 @@ const char *nickserv_find_nick(struct irc_network *n, const char *nick)
 			continue;
 		}
 
-		if (e->network == NULL) {
+		/* A password for this network is better than one for all networks */
+		if (e->network != NULL && !strcasecmp(e->network, n->name)) {
 			return e->pass;
 		}
-		if (!strcasecmp(e->network, n->name)) {
-			return e->pass;
+		if (e->network == NULL && pass == NULL) {
+			pass = e->pass;
 		}
 	}
 
-	return NULL;
+	return pass;
 }
 
 const char *nickserv_nick(struct irc_network *n)
@@ -87,22 +90,23 @@ void nickserv_identify_me(struct irc_network *network, char *nick)
 static void cache_nickserv_pass(struct irc_network *n, const char *newpass)
 {
 	struct keyfile_entry *e = NULL;
+	const char *pass;
 	GList *gl;
 
 	if (!n->global->config->learn_nickserv) {
 		return;
 	}
 
+	pass = nickserv_find_nick(n, n->external_state->me.nick);
+	if (pass != NULL && !strcmp(pass, newpass)) {
+		return;
+	}
+
 	for (gl = n->global->nickserv_nicks; gl; gl = gl->next) {
 		e = gl->data;
 
 		if (e->network && !strcasecmp(e->network, n->name) &&
-			!irccmp(n->external_state->info, e->nick, n->external_state->me.nick)) {
-			break;
-		}
-
-		if (!e->network && !irccmp(n->external_state->info, e->nick, n->external_state->me.nick) &&
-			!strcmp(e->pass, newpass)) {
+			!irccmp(n->info, e->nick, n->external_state->me.nick)) {
 			break;
 		}
 	}
-- 
2.43.0


From 5d23ae371af57e41a7e878ed91bea89eb6d7f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:19 +0000
Subject: [PATCH 68/88] fix: keep NickServ passwords with their network when it
 is renamed

---
 src/admin.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/admin.c b/src/admin.c
index c09f475..4ed60df 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -26,6 +26,7 @@
 #include "admin.h"
 #include "help.h"
 #include "irc.h"
+#include "keyfile.h"
 
 help_t *help;
 
@@ -425,6 +426,16 @@ static void rename_network_helper(admin_handle h, const char *oldname,
 		}
 	}
 
+	/* And so do the passwords for NickServ */
+	for (gl = admin_get_global(h)->nickserv_nicks; gl; gl = gl->next) {
+		struct keyfile_entry *e = gl->data;
+
+		if (e->network != NULL && !strcasecmp(e->network, n->name)) {
+			g_free(e->network);
+			e->network = g_strdup(newname);
+		}
+	}
+
 	g_free(n->name);
 	n->name = g_strdup(newname);
 
-- 
2.43.0


From f53d0498788bcf4a4e3e034abbd8521727ded271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:41 +0000
Subject: [PATCH 69/88] fix: fill in the text of logged messages sent with
 lowercase commands

---
 src/log_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_subst.c b/src/log_subst.c
index 14941db..34df3d9 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -220,7 +220,7 @@ static char *find_mapping(struct subst_context *subst_ctx,
 {
 	int i;
 	for (i = 0; mappings[i].subst; i++) {
-		if (mappings[i].command && strcmp(mappings[i].command, l->args[0]))
+		if (mappings[i].command && base_strcmp(mappings[i].command, l->args[0]))
 			continue;
 
 		if (mappings[i].subst != c)
-- 
2.43.0


From 4d254fe72f6accffd7ee8dc051aa2e77946c84d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:43 +0000
Subject: [PATCH 70/88] fix: include the kick reason in irssi-style logs

---
 src/settings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 62a2bfc..0f37261 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1325,7 +1325,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 		data->action = "%h:%M  * %n %m";
 		data->mode = "%h:%M -!- mode/%t [%p %c] by %n";
 		data->quit = "%h:%M -!- %n [%u] has quit [%m]";
-		data->kick = "%h:%M -!- %t has been kicked by %n [%m]";
+		data->kick = "%h:%M -!- %t has been kicked by %n [%r]";
 		data->topic = "%h:%M -!- %n has changed the topic to %t";
 		data->notopic = "%h:%M -!- %n has removed the topic";
 		data->nickchange = "%h:%M -!- %n is now known as %r";
-- 
2.43.0


From 045927e93d8f3d7d381ef703429a71bd2d4b3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 71/88] fix: handle log file names with %u for lines sent by
 servers

---
 src/log_subst.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/log_subst.c b/src/log_subst.c
index 34df3d9..bd86eb2 100644
--- a/src/log_subst.c
+++ b/src/log_subst.c
@@ -95,6 +95,9 @@ static char *get_user(struct subst_context *subst_ctx, const struct irc_line *li
 			user++;
 	}
 
+	if (user == NULL)
+		return g_strdup("");
+
 	if (case_sensitive)
 		return g_ascii_strdown(user, -1);
 	else
-- 
2.43.0


From 7cea519172551607e49d892eb2e077d6f65ba0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 72/88] fix: keep the number of open log files bounded

---
 src/log_support.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log_support.c b/src/log_support.c
index bd5fefd..8949ece 100644
--- a/src/log_support.c
+++ b/src/log_support.c
@@ -93,9 +93,13 @@ gboolean log_support_write(struct log_support_context *ctx,
 {
 	struct log_file_info *fi;
 
-	if (ctx->num_opened > MAX_OPEN_LOGFILES)
+	if (ctx->num_opened > MAX_OPEN_LOGFILES) {
 		log_support_cleanup(ctx);
-	
+		/* All in recent use; they are opened again when necessary */
+		if (ctx->num_opened > MAX_OPEN_LOGFILES)
+			log_support_reopen(ctx);
+	}
+
 	/* First, check if the file is still present in the hash table */
 	fi = g_hash_table_lookup(ctx->files, path);
 
-- 
2.43.0


From 008c1214cc06bca86bd124941bfc732f00efaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:46 +0000
Subject: [PATCH 73/88] fix: do not expand percent signs in the configuration
 directory's path in log file names

---
 src/settings.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/settings.c b/src/settings.c
index 0f37261..8964880 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1267,6 +1267,7 @@ static void config_load_log(struct ctrlproxy_config *config)
 	GKeyFile *kf = config->keyfile;
 	struct log_file_config *data;
 	char *logging = NULL;
+	char **parts, *escaped;
 
 	if (g_key_file_has_key(kf, "global", "logging", NULL)) {
 		logging = config_get_string(kf, "global", "logging");
@@ -1344,7 +1345,12 @@ static void config_load_log(struct ctrlproxy_config *config)
 
 			data->logbasedir_is_default = TRUE;
 
-			data->logfilename = g_strdup_printf("%s/%%N/%%@", data->logbasedir);
+			/* The path of the configuration directory is no format */
+			parts = g_strsplit(data->logbasedir, "%", 0);
+			escaped = g_strjoinv("%%", parts);
+			data->logfilename = g_strdup_printf("%s/%%N/%%@", escaped);
+			g_free(escaped);
+			g_strfreev(parts);
 		}
 		g_key_file_remove_group(kf, "log-irssi", NULL);
 
-- 
2.43.0


From 2a8184d4ab32905a03c15a2d9ebd4a9de3b917b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:47 +0000
Subject: [PATCH 74/88] fix: do not write CTCP replies to the logs as notices

---
 src/log_custom.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/log_custom.c b/src/log_custom.c
index 76427f1..c24f78b 100644
--- a/src/log_custom.c
+++ b/src/log_custom.c
@@ -234,8 +234,10 @@ static gboolean log_custom_data(struct irc_network *network,
 		} else {
 			file_write_target(data, network, data->config->msg, l);
 		}
-	} else if (!base_strcmp(l->args[0], "NOTICE")) {
-		file_write_target(data, network, data->config->notice, l);
+	} else if (!base_strcmp(l->args[0], "NOTICE") && l->argc > 2) {
+		/* Ignore CTCP replies */
+		if (l->args[2][0] != '\001')
+			file_write_target(data, network, data->config->notice, l);
 	} else if (!base_strcmp(l->args[0], "MODE") && l->argc > 1 &&
 			  is_channelname(l->args[1], network_get_info(network)) &&
 			  dir == FROM_SERVER) {
-- 
2.43.0


From cc4005a68f4049abd609ce05d80bb61e41b3ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 75/88] fix: do not close the log file twice at exit after
 SIGHUP

---
 src/log.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 5e1b46e..1e4bc9d 100644
--- a/src/log.c
+++ b/src/log.c
@@ -129,7 +129,7 @@ static void log_handler(const gchar *log_domain, GLogLevelFlags flags, const gch
 static void fini_log(void)
 {
 	log_global(LOG_INFO, "Closing log file");
-	if (flog != stderr) {
+	if (flog != NULL && flog != stderr) {
 		fclose(flog);
 	}
 	flog = NULL;
@@ -137,6 +137,8 @@ static void fini_log(void)
 
 gboolean init_log(const char *lf)
 {
+	static gboolean exit_registered = FALSE;
+
 	g_log_set_handler ("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, log_handler, NULL);
 
 	if (!lf) {
@@ -144,13 +146,20 @@ gboolean init_log(const char *lf)
 		return TRUE;
 	}
 
+	/* Reopening; see signal_hup() */
+	if (flog != NULL && flog != stderr)
+		fclose(flog);
+
 	flog = fopen(lf, "a+");
 	if (!flog) {
 		perror("Opening log file");
 		return FALSE;
 	}
 
-	atexit(fini_log);
+	if (!exit_registered) {
+		atexit(fini_log);
+		exit_registered = TRUE;
+	}
 
 	log_global(LOG_INFO, "Opening log file");
 	return TRUE;
-- 
2.43.0


From dbe567653aa2d460f8c3f8e63a77fb6ada0d9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:45 +0000
Subject: [PATCH 76/88] fix: reopen the log file that was in use on SIGHUP, not
 another one

---
 src/main.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 4205f8f..cba4ba3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -55,11 +55,13 @@ void register_hup_handler(hup_handler_fn fn, void *userdata)
 	hup_handlers = g_list_append(hup_handlers, hh);
 }
 
+/* File to log to, NULL for standard error */
+static char *logfile = NULL;
+
 static void signal_hup(int sig)
 {
 	GList *gl;
-	char *logfile;
-	logfile = g_build_filename(my_global->config->config_dir, "log", NULL);
+	/* Reopen the file that was logged to, if any */
 	init_log(logfile);
 	for (gl = hup_handlers; gl; gl = gl->next) {
 		struct hup_handler *hh = gl->data;
@@ -184,7 +186,6 @@ static gboolean main_loop_signal(gpointer _sig)
 int main(int argc, char **argv)
 {
 	int isdaemon = 0;
-	char *logfile = NULL;
 	extern enum log_level current_log_level;
 	extern gboolean no_log_timestamp;
 	char *config_dir = NULL;
-- 
2.43.0


From 38295fe16bc18e704e5bf7770682b92fd93f9900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:43 +0000
Subject: [PATCH 77/88] fix: rejoin channels if the connection is lost before
 the server answers the JOIN

---
 src/gen_config.c |  3 ++-
 src/network.c    | 30 ++++++++++++++++++++++++++++++
 src/settings.h   |  2 ++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/gen_config.c b/src/gen_config.c
index f6f02b4..d493e46 100644
--- a/src/gen_config.c
+++ b/src/gen_config.c
@@ -56,7 +56,8 @@ void network_update_config(struct irc_network_state *ns, struct network_config *
 	for (gl = nc->channels; gl; gl = gl->next) {
 		struct channel_config *cc = gl->data;
 
-		cc->autojoin = FALSE;
+		/* Not on the channel, unless the server has yet to answer */
+		cc->autojoin = cc->join_pending;
 	}
 
 	for (gl = ns->channels; gl; gl = gl->next) {
diff --git a/src/network.c b/src/network.c
index 1123ffe..9ffa1c2 100644
--- a/src/network.c
+++ b/src/network.c
@@ -88,6 +88,33 @@ static gboolean network_process_ctcp_request(struct irc_network *n,
 }
 
 
+/**
+ * Find out which of the configured channels the server has answered the
+ * JOIN for, either by joining us or by refusing to.
+ */
+static void network_check_joins(struct irc_network *n, const struct irc_line *l,
+								int response)
+{
+	struct network_config *nc = n->private_data;
+	GList *gl;
+
+	if (base_strcmp(l->args[0], "JOIN") != 0 &&
+		(response < 400 || l->argc < 3))
+		return;
+
+	for (gl = nc->channels; gl; gl = gl->next) {
+		struct channel_config *c = gl->data;
+
+		if (!c->join_pending)
+			continue;
+
+		if (response >= 400?
+			!irccmp(n->external_state->info, c->name, l->args[2]):
+			find_channel(n->external_state, c->name) != NULL)
+			c->join_pending = FALSE;
+	}
+}
+
 /**
  * Process a line received from the server
  *
@@ -130,6 +157,8 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 
 	response = irc_line_respcode(l);
 
+	network_check_joins(n, l, response);
+
 	if (!base_strcmp(l->args[0], "PING")){
 		network_send_args(n, "PONG", l->args[1], NULL);
 		return TRUE;
@@ -187,6 +216,7 @@ static gboolean process_from_server(struct irc_network *n, const struct irc_line
 		for (gl = nc->channels; gl; gl = gl->next) {
 			struct channel_config *c = gl->data;
 
+			c->join_pending = c->autojoin;
 			if (c->autojoin) {
 				network_send_args(n, "JOIN", c->name, c->key, NULL);
 			}
diff --git a/src/settings.h b/src/settings.h
index 6ebbe98..a6ce1f3 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -34,6 +34,8 @@ struct channel_config {
 	char *name;
 	char *key;
 	gboolean autojoin;
+	/* The server has not answered our JOIN yet */
+	gboolean join_pending;
 };
 
 /**
-- 
2.43.0


From 6f9c0cb2c538926707d3bfb84114f60e5dbe558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:11 +0000
Subject: [PATCH 78/88] fix: keep programs run as networks away from the
 proxy's own resources

---
 libirc/connection.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 04e1750..48c547d 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -668,19 +668,25 @@ static pid_t piped_child(struct irc_network *s, char* const command[], int *f_in
 
 	if (pid == -1) {
 		network_log(LOG_ERROR, s, "fork: %s", strerror(errno));
+		close(sock[0]);
+		close(sock[1]);
 		return -1;
 	}
 
 	if (pid == 0) {
-		close(0);
-		close(1);
-		close(2);
-		close(sock[0]);
+		int i, max_fd = MIN(sysconf(_SC_OPEN_MAX), 65536);
 
 		dup2(sock[1], 0);
 		dup2(sock[1], 1);
+
+		/* None of the other connections are any business of the child */
+		for (i = 2; i < max_fd; i++)
+			close(i);
+
 		execvp(command[0], command);
-		exit(-1);
+
+		/* The exit handlers are those of the parent */
+		_exit(1);
 	}
 
 	close(sock[1]);
-- 
2.43.0


From 75574b4ca7fb8641345d30f5aa5fd435c7727646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:12 +0000
Subject: [PATCH 79/88] fix: don't leave zombies behind when programs run as
 networks end

---
 libirc/connection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libirc/connection.c b/libirc/connection.c
index 48c547d..990685a 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -765,6 +765,11 @@ gboolean network_set_iochannel(struct irc_network *s, GIOChannel *ioc)
 	return TRUE;
 }
 
+static void program_exited(GPid pid, gint status, gpointer data)
+{
+	g_spawn_close_pid(pid);
+}
+
 static gboolean connect_program(struct irc_network *s)
 {
 	struct network_config *nc = s->private_data;
@@ -783,6 +788,9 @@ static gboolean connect_program(struct irc_network *s)
 
 	if (pid == -1) return FALSE;
 
+	/* Don't leave a zombie behind */
+	g_child_watch_add(pid, program_exited, NULL);
+
 	ioc = g_io_channel_unix_new(sock);
 	network_set_iochannel(s, ioc);
 
-- 
2.43.0


From 5177879d0929d5a477f20d4bb9ae37e3209ed7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:58 +0000
Subject: [PATCH 80/88] fix: don't let an unconvertible line affect the
 conversion of the next one

---
 libirc/line.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libirc/line.c b/libirc/line.c
index 1b22719..71566eb 100644
--- a/libirc/line.c
+++ b/libirc/line.c
@@ -163,6 +163,8 @@ GIOStatus irc_send_line(GIOChannel *c, GIConv iconv,
 
 	raw = irc_line_string_nl(l);
 	if (iconv != (GIConv)-1) {
+		/* A previous line may have been unconvertible halfway */
+		g_iconv(iconv, NULL, NULL, NULL, NULL);
 		cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, &len, error);
 		g_free(raw);
 		if (cvrt == NULL)
@@ -453,6 +455,8 @@ GIOStatus irc_recv_line(GIOChannel *c, GIConv iconv,
 		if (iconv == (GIConv)-1) {
 			cvrt = raw;
 		} else {
+			/* A previous line may have been unconvertible halfway */
+			g_iconv(iconv, NULL, NULL, NULL, NULL);
 			cvrt = g_convert_with_iconv(raw, -1, iconv, NULL, NULL, error);
 			if (cvrt == NULL) {
 				cvrt = raw;
-- 
2.43.0


From 8f32c1269b2436875f2ebe355117021150238cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:19 +0000
Subject: [PATCH 81/88] fix: go on with the lines received after one that can't
 be converted

---
 libirc/transport_ioc.c | 45 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/libirc/transport_ioc.c b/libirc/transport_ioc.c
index f6700c5..ff3ed47 100644
--- a/libirc/transport_ioc.c
+++ b/libirc/transport_ioc.c
@@ -102,38 +102,30 @@ static char *irc_transport_iochannel_get_peer_name(void *data)
 
 static gboolean irc_transport_iochannel_set_charset(struct irc_transport *transport, const char *name)
 {
-	GIConv tmp;
+	GIConv outgoing = (GIConv)-1, incoming = (GIConv)-1;
 	struct irc_transport_data_iochannel *backend_data = (struct irc_transport_data_iochannel *)transport->backend_data;
 
 	if (name != NULL) {
-		tmp = g_iconv_open(name, "UTF-8");
+		outgoing = g_iconv_open(name, "UTF-8");
+		if (outgoing == (GIConv)-1)
+			return FALSE;
 
-		if (tmp == (GIConv)-1) {
+		incoming = g_iconv_open("UTF-8", name);
+		if (incoming == (GIConv)-1) {
+			g_iconv_close(outgoing);
 			return FALSE;
 		}
-	} else {
-		tmp = (GIConv)-1;
 	}
-	
+
 	if (backend_data->outgoing_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->outgoing_iconv);
 
-	backend_data->outgoing_iconv = tmp;
-
-	if (name != NULL) {
-		tmp = g_iconv_open("UTF-8", name);
-
-		if (tmp == (GIConv)-1) {
-			return FALSE;
-		}
-	} else {
-		tmp = (GIConv)-1;
-	}
+	backend_data->outgoing_iconv = outgoing;
 
 	if (backend_data->incoming_iconv != (GIConv)-1)
 		g_iconv_close(backend_data->incoming_iconv);
 
-	backend_data->incoming_iconv = tmp;
+	backend_data->incoming_iconv = incoming;
 
 	return TRUE;
 }
@@ -303,9 +295,17 @@ static gboolean transport_receive(GIOChannel *c, GIOCondition cond,
 		gboolean ret = TRUE;
 		
 		while ((status = irc_recv_line(c, backend_data->incoming_iconv, &error,
-									   &l)) == G_IO_STATUS_NORMAL) {
-
-			ret &= transport->callbacks->recv(transport, l);
+									   &l)) == G_IO_STATUS_NORMAL ||
+			   l != NULL) {
+
+			if (status == G_IO_STATUS_NORMAL) {
+				ret &= transport->callbacks->recv(transport, l);
+			} else {
+				/* This line could be received but not be converted,
+				 * others may have been received along with it. */
+				ret &= handle_recv_status(transport, status, error);
+				g_clear_error(&error);
+			}
 			free_line(l);
 
 			if (!ret)
@@ -316,9 +316,6 @@ static gboolean transport_receive(GIOChannel *c, GIOCondition cond,
 				return FALSE;
 		}
 
-		/* Set for lines that could be received but not be converted */
-		free_line(l);
-
 		ret &= handle_recv_status(transport, status, error);
 		if (error != NULL)
 			g_error_free(error);
-- 
2.43.0


From eaaed1c212613208f56f5e4d5f804a2ec7a07608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:50 +0000
Subject: [PATCH 82/88] fix: send clients the rest of the state after a line
 not in their character set

---
 libirc/client.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libirc/client.c b/libirc/client.c
index 76a9ba0..feb4ad5 100644
--- a/libirc/client.c
+++ b/libirc/client.c
@@ -172,6 +172,9 @@ gboolean client_send_args(struct irc_client *c, ...)
  */
 gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError **error)
 {
+	GError *send_error = NULL;
+	gboolean ret;
+
 	if (c->connected == FALSE) {
 		g_set_error_literal(error, IRC_CLIENT_ERROR, IRC_CLIENT_ERROR_DISCONNECTED,
 				    "Not connected.");
@@ -187,7 +190,20 @@ gboolean client_send_line(struct irc_client *c, const struct irc_line *l, GError
 
 	state_handle_data(c->state, l);
 
-	return transport_send_line(c->transport, l, error);
+	ret = transport_send_line(c->transport, l, &send_error);
+
+	if (!ret && send_error != NULL && send_error->domain == G_CONVERT_ERROR) {
+		/* Just this line can not be expressed in the character set of
+		 * the client, which is no reason to withhold the lines that
+		 * come after it. */
+		g_error_free(send_error);
+		return TRUE;
+	}
+
+	if (send_error != NULL)
+		g_propagate_error(error, send_error);
+
+	return ret;
 }
 
 /*
-- 
2.43.0


From 7a3d51c5bb047977ac80c958a6aa1c2bd35b22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:11 +0000
Subject: [PATCH 83/88] fix: don't leak the list of arguments of every CTCP
 reply

---
 src/ctcp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ctcp.c b/src/ctcp.c
index d19a919..8dfb5fa 100644
--- a/src/ctcp.c
+++ b/src/ctcp.c
@@ -57,6 +57,8 @@ static char *toarg(va_list ap)
 
 	*pos = '\001';
 
+	g_list_free(list);
+
 	return ret;
 }
 
-- 
2.43.0


From f03209aa0b018fe89ce55b8f996ada61d5214f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:12 +0000
Subject: [PATCH 84/88] fix: register the GLib log handler once, not on every
 SIGHUP

---
 src/log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log.c b/src/log.c
index 1e4bc9d..855319f 100644
--- a/src/log.c
+++ b/src/log.c
@@ -138,8 +138,12 @@ static void fini_log(void)
 gboolean init_log(const char *lf)
 {
 	static gboolean exit_registered = FALSE;
+	static gboolean handler_set = FALSE;
 
-	g_log_set_handler ("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, log_handler, NULL);
+	if (!handler_set) {
+		g_log_set_handler ("GLib", G_LOG_LEVEL_MASK | G_LOG_FLAG_FATAL | G_LOG_FLAG_RECURSION, log_handler, NULL);
+		handler_set = TRUE;
+	}
 
 	if (!lf) {
 		flog = stderr;
-- 
2.43.0


From 28097f0e13d56bd7fcd159a999d8902eda33d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:24 +0000
Subject: [PATCH 85/88] fix: free the configuration of a network that is
 deleted

---
 libirc/connection.c |  3 ++
 libirc/connection.h |  1 +
 src/admin.c         |  4 +-
 src/network.c       | 10 +++++
 src/settings.c      | 89 ++++++++++++++++++++++++---------------------
 src/settings.h      |  1 +
 6 files changed, 64 insertions(+), 44 deletions(-)

diff --git a/libirc/connection.c b/libirc/connection.c
index 990685a..ffa89d7 100644
--- a/libirc/connection.c
+++ b/libirc/connection.c
@@ -926,6 +926,9 @@ static void free_network(struct irc_network *s)
 	ssl_free_client_credentials(s->ssl_credentials);
 #endif
 
+	if (s->callbacks != NULL && s->callbacks->destroy != NULL)
+		s->callbacks->destroy(s);
+
 	g_free(s->name);
 	g_free(s);
 }
diff --git a/libirc/connection.h b/libirc/connection.h
index fbd6223..dcb0c39 100644
--- a/libirc/connection.h
+++ b/libirc/connection.h
@@ -104,6 +104,7 @@ struct irc_network_callbacks {
 	gboolean (*process_to_server) (struct irc_network *, const struct irc_line *);
 	void (*disconnect) (struct irc_network *);
 	void (*state_set) (struct irc_network *);
+	void (*destroy) (struct irc_network *);
 };
 
 /**
diff --git a/src/admin.c b/src/admin.c
index 4ed60df..31dee76 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -465,10 +465,10 @@ static void del_network_helper(admin_handle h, const char *name)
 
 	disconnect_network(n);
 
-	unload_network(n);
-
 	config_del_network(admin_get_global(h)->config, name);
 
+	unload_network(n);
+
 	admin_out(h, "Network `%s' deleted", name);
 }
 
diff --git a/src/network.c b/src/network.c
index 9ffa1c2..a7071fd 100644
--- a/src/network.c
+++ b/src/network.c
@@ -485,6 +485,15 @@ static gboolean process_to_server(struct irc_network *s,
 	return TRUE;
 }
 
+static void handle_network_destroy(struct irc_network *n)
+{
+	struct network_config *nc = n->private_data;
+
+	/* Otherwise it is still part of the configuration */
+	if (nc->global != NULL && g_list_find(nc->global->networks, nc) == NULL)
+		free_network_config(nc);
+}
+
 struct irc_network_callbacks default_callbacks = {
 	.get_login_details = get_login_details,
 	.process_from_server = process_from_server,
@@ -492,6 +501,7 @@ struct irc_network_callbacks default_callbacks = {
 	.log = handle_network_log,
 	.disconnect = handle_network_disconnect,
 	.state_set = handle_network_state_set,
+	.destroy = handle_network_destroy,
 };
 
 /**
diff --git a/src/settings.c b/src/settings.c
index 8964880..0d371ff 100644
--- a/src/settings.c
+++ b/src/settings.c
@@ -1675,53 +1675,58 @@ struct network_config *network_config_init(struct ctrlproxy_config *cfg)
 	return s;
 }
 
+void free_network_config(struct network_config *nc)
+{
+	g_free(nc->name);
+	g_free(nc->nick);
+	g_free(nc->fullname);
+	g_free(nc->username);
+	g_free(nc->password);
+	g_strfreev(nc->autocmd);
+	while (nc->channels) {
+		struct channel_config *cc = nc->channels->data;
+		g_free(cc->name);
+		g_free(cc->key);
+		nc->channels = g_list_remove(nc->channels, cc);
+		g_free(cc);
+	}
+	switch (nc->type) {
+	case NETWORK_TCP:
+		while (nc->type_settings.tcp.servers) {
+			struct tcp_server_config *tc = nc->type_settings.tcp.servers->data;
+			g_free(tc->host);
+			g_free(tc->port);
+			g_free(tc->bind_address);
+			g_free(tc->password);
+			nc->type_settings.tcp.servers = g_list_remove(nc->type_settings.tcp.servers, tc);
+			g_free(tc);
+		}
+		g_free(nc->type_settings.tcp.default_bind_address);
+		break;
+	case NETWORK_VIRTUAL:
+		g_free(nc->type_settings.virtual_name);
+		break;
+	case NETWORK_PROGRAM:
+		g_free(nc->type_settings.program_location);
+		break;
+	case NETWORK_IOCHANNEL:
+		/* Nothing to free */
+		break;
+	}
+	if (nc->keyfile != NULL && nc->filename != NULL) {
+		g_key_file_free(nc->keyfile);
+	}
+	g_free(nc->filename);
+	g_free(nc->groupname);
+	g_free(nc);
+}
+
 void free_config(struct ctrlproxy_config *cfg)
 {
 	while (cfg->networks) {
 		struct network_config *nc = cfg->networks->data;
-		g_free(nc->name);
-		g_free(nc->nick);
-		g_free(nc->fullname);
-		g_free(nc->username);
-		g_free(nc->password);
-		g_strfreev(nc->autocmd);
-		while (nc->channels) {
-			struct channel_config *cc = nc->channels->data;
-			g_free(cc->name);
-			g_free(cc->key);
-			nc->channels = g_list_remove(nc->channels, cc);
-			g_free(cc);
-		}
-		switch (nc->type) {
-		case NETWORK_TCP:
-			while (nc->type_settings.tcp.servers) {
-				struct tcp_server_config *tc = nc->type_settings.tcp.servers->data;
-				g_free(tc->host);
-				g_free(tc->port);
-				g_free(tc->bind_address);
-				g_free(tc->password);
-				nc->type_settings.tcp.servers = g_list_remove(nc->type_settings.tcp.servers, tc);
-				g_free(tc);
-			}
-			g_free(nc->type_settings.tcp.default_bind_address);
-			break;
-		case NETWORK_VIRTUAL:
-			g_free(nc->type_settings.virtual_name);
-			break;
-		case NETWORK_PROGRAM:
-			g_free(nc->type_settings.program_location);
-			break;
-		case NETWORK_IOCHANNEL:
-			/* Nothing to free */
-			break;
-		}
 		cfg->networks = g_list_remove(cfg->networks, nc);
-		if (nc->keyfile != NULL && nc->filename != NULL) {
-			g_key_file_free(nc->keyfile);
-		}
-		g_free(nc->filename);
-		g_free(nc->groupname);
-		g_free(nc);
+		free_network_config(nc);
 	}
 	g_free(cfg->config_dir);
 	g_free(cfg->network_socket);
diff --git a/src/settings.h b/src/settings.h
index a6ce1f3..cb7d96d 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -246,5 +246,6 @@ G_MODULE_EXPORT void free_config(struct ctrlproxy_config *);
 G_MODULE_EXPORT void setup_configdir(const char *dir);
 G_MODULE_EXPORT gboolean g_key_file_save_to_file(GKeyFile *kf, const gchar *file, GError **error);
 G_MODULE_EXPORT void config_del_network(struct ctrlproxy_config *cfg, const char *name);
+G_MODULE_EXPORT void free_network_config(struct network_config *nc);
 
 #endif /* __CTRLPROXY_SETTINGS_H__ */
-- 
2.43.0


From e0dad3f46343eee2a1c50d68226ed1cea7254e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:52 +0000
Subject: [PATCH 86/88] fix: don't let listeners hand clients a network that
 was deleted

---
 src/listener.c | 6 ++++++
 src/network.c  | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/listener.c b/src/listener.c
index 78e76b4..997ee94 100644
--- a/src/listener.c
+++ b/src/listener.c
@@ -208,6 +208,12 @@ static gboolean handle_client_line(struct pending_client *pc, const struct irc_l
 		gboolean authenticated = FALSE;
 		const char *p;
 
+		/* May have been added (again) since the listener was started */
+		if (n == NULL && listener->config != NULL &&
+			listener->config->network != NULL)
+			n = find_network(listener->global->networks,
+							 listener->config->network);
+
 		if (l->argc < 2) {
 			irc_sendf(pc->connection, listener->iconv, NULL,
 					  ":%s %d %s %s :Not enough parameters",
diff --git a/src/network.c b/src/network.c
index a7071fd..5be7f2a 100644
--- a/src/network.c
+++ b/src/network.c
@@ -586,6 +586,15 @@ void unload_network(struct irc_network *s)
 
 	if (s->global != NULL) {
 		s->global->networks = g_list_remove(s->global->networks, s);
+
+		for (l = s->global->listeners; l; l = l->next) {
+			struct irc_listener *listener = l->data;
+
+			if (listener->network == s) {
+				irc_network_unref(listener->network);
+				listener->network = NULL;
+			}
+		}
 	}
 
 	irc_network_unref(s);
-- 
2.43.0


From 2c6a6219fdc7aa5e13ca59443382af66f352aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:42 +0000
Subject: [PATCH 87/88] fix: free the settings of listeners started at run time
 when they are stopped

---
 src/admin.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/admin.c b/src/admin.c
index 31dee76..d0e86c1 100644
--- a/src/admin.c
+++ b/src/admin.c
@@ -1133,6 +1133,15 @@ void admin_log(enum log_level level, const struct irc_network *n, const struct i
 	entered = FALSE;
 }
 
+static void free_listener_config(struct listener_config *cfg)
+{
+	g_free(cfg->address);
+	g_free(cfg->port);
+	g_free(cfg->network);
+	g_free(cfg->password);
+	g_free(cfg);
+}
+
 static void cmd_start_listener(admin_handle h, const char * const *args, void *userdata)
 {
 	char *b, *p;
@@ -1178,11 +1187,7 @@ static void cmd_start_listener(admin_handle h, const char * const *args, void *u
 	if (!listener_start_tcp(l, l->config->address, l->config->port)) {
 		admin_out(h, "Unable to listen on %s", args[1]);
 		free_listener(l);
-		g_free(cfg->address);
-		g_free(cfg->port);
-		g_free(cfg->network);
-		g_free(cfg->password);
-		g_free(cfg);
+		free_listener_config(cfg);
 		return;
 	}
 
@@ -1211,6 +1216,7 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 
 	for (gl = admin_get_global(h)->listeners; gl; gl = next) {
 		struct irc_listener *l = gl->data;
+		struct listener_config *cfg = l->config;
 
 		next = gl->next;
 
@@ -1232,6 +1238,10 @@ static void cmd_stop_listener(admin_handle h, const char * const *args, void *us
 
 		listener_stop(l);
 		free_listener(l);
+		/* Those that aren't part of the configuration were started at
+		 * run time and nothing else refers to them */
+		if (g_list_find(admin_get_global(h)->config->listeners, cfg) == NULL)
+			free_listener_config(cfg);
 		i++;
 	}
 
-- 
2.43.0


From 547df5a0d2fc4346907d1f0abd71201e8ccdc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:59 +0000
Subject: [PATCH 88/88] fix: do not take the slash after the port of a server
 URL as part of the port

---
 libirc/url.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libirc/url.c b/libirc/url.c
index 966b5b9..fdd54d8 100644
--- a/libirc/url.c
+++ b/libirc/url.c
@@ -55,7 +55,7 @@ gboolean irc_parse_url(const char *url, char **server, char **port, gboolean *ss
 	q = strchr(url, '/');
 	p = (q != NULL)?g_strrstr_len(url, q - url, ":"):strrchr(url, ':');
 	if (p != NULL) {
-		*port = g_strdup(p+1);
+		*port = (q != NULL)?g_strndup(p+1, q-(p+1)):g_strdup(p+1);
 		*server = g_strndup(url, p-url);
 		return TRUE;
 	}
-- 
2.43.0

