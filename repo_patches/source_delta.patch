From dfb374d9550df0910db85573a3cfb8c55e3a51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:53 +0000
Subject: [PATCH 01/98] fix: fall back to less specific networks on lookup and
 stop after the last bit

---
 src/database.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..fd75a93 100644
--- a/src/database.c
+++ b/src/database.c
@@ -887,14 +887,18 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	if (!node_v1)
 		return 1;
 
-	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
+	// Follow the path, unless all bits of the address have been used
+	node_index = 0;
 
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+	if (level < 128) {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
+
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	}
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
@@ -908,14 +912,14 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
-		// End here if a result was found
-		if (r == 0)
-			return r;
-
 		// Raise any errors
-		else if (r < 0)
+		if (r)
 			return r;
 
+		// End here if a result was found
+		if (*network)
+			return 0;
+
 		DEBUG(db->ctx, "No match found below level %u\n", level);
 	} else {
 		DEBUG(db->ctx, "Tree ended at level %u\n", level);
-- 
2.43.0


From ae231baf0221ea59a6483d0a522fddc6bb9930ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:58 +0000
Subject: [PATCH 02/98] fix: derive networks from the bits of their own prefix
 only

---
 src/network.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/network.c b/src/network.c
index 69306a9..2de035f 100644
--- a/src/network.c
+++ b/src/network.c
@@ -663,11 +663,22 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// The tree cannot be deeper than an address is long
+	if (prefix > 128) {
+		ERROR(ctx, "Invalid prefix: %u\n", prefix);
+		errno = EINVAL;
+		return 1;
+	}
+
+	// Drop any bits that do not belong to this network
+	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
+	struct in6_addr first_address = loc_address_and(address, &bitmask);
+
 	// Adjust prefix for IPv4
-	if (IN6_IS_ADDR_V4MAPPED(address))
+	if (IN6_IS_ADDR_V4MAPPED(&first_address))
 		prefix -= 96;
 
-	int r = loc_network_new(ctx, network, address, prefix);
+	int r = loc_network_new(ctx, network, &first_address, prefix);
 	if (r) {
 		ERROR(ctx, "Could not allocate a new network: %m\n");
 		return r;
@@ -679,7 +690,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto ERROR;
 	}
 
 	// Import ASN
@@ -687,7 +698,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto ERROR;
 	}
 
 	// Import flags
@@ -695,10 +706,16 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto ERROR;
 	}
 
 	return 0;
+
+ERROR:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
-- 
2.43.0


From 6e3212c6edba326a44f618699a8a584b5b3a2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:18 +0000
Subject: [PATCH 03/98] fix: keep a reference to networks that are being merged

---
 src/network-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..0393178 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -358,6 +358,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	if (i == 0)
 		return loc_network_list_push(ctx->networks, network);
 
+	// Hold on to the network as it might be removed from the tree
+	loc_network_ref(network);
+
 	while (i--) {
 		// Fetch the last network of the list
 		n = loc_network_list_get(ctx->networks, i);
@@ -441,6 +444,7 @@ ERROR:
 		loc_network_unref(m);
 	if (n)
 		loc_network_unref(n);
+	loc_network_unref(network);
 
 	return r;
 }
-- 
2.43.0


From 62164ecfe1092188a2418598b426e7929b41804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:23 +0000
Subject: [PATCH 04/98] fix: bound the enumerator's stack and the depth of the
 tree

---
 src/database.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index fd75a93..f988dd4 100644
--- a/src/database.c
+++ b/src/database.c
@@ -96,7 +96,8 @@ struct loc_database {
 	struct loc_database_objects country_objects;
 };
 
-#define MAX_STACK_DEPTH 256
+// Every level of the tree can add up to two nodes to the root, which sits at index one
+#define MAX_STACK_DEPTH (2 * 128 + 2)
 
 struct loc_node_stack {
 	off_t offset;
@@ -1264,8 +1265,15 @@ static int loc_database_enumerator_stack_push_node(
 	if (!offset)
 		return 0;
 
+	// The tree cannot be deeper than an address is long
+	if (depth > 128) {
+		ERROR(e->ctx, "Network tree is too deep\n");
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if there is any space left on the stack
-	if (e->network_stack_depth >= MAX_STACK_DEPTH) {
+	if (e->network_stack_depth >= MAX_STACK_DEPTH - 1) {
 		ERROR(e->ctx, "Maximum stack size reached: %d\n", e->network_stack_depth);
 		return 1;
 	}
-- 
2.43.0


From 094bf17a8b8e19bb863c401a150bc3d688e497bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 05/98] fix: do not count trailing zeroes of zero

---
 src/libloc/address.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..27508b7 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -143,12 +143,10 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
-		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
-
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		// Count all trailing zeroes (of one byte only)
+		int trailing_zeroes = 8;
+		if (address->s6_addr[octet])
+			trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
-- 
2.43.0


From 053e45def9366a68b708c9792b22554954bcdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:17 +0000
Subject: [PATCH 06/98] fix: do not alter the networks of the writer when
 writing

---
 src/libloc/network-tree.h |  2 ++
 src/network-tree.c        | 26 ++++++++++++++++++++++++++
 src/writer.c              | 18 +++++++++++++++---
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/libloc/network-tree.h b/src/libloc/network-tree.h
index 13052b7..052d097 100644
--- a/src/libloc/network-tree.h
+++ b/src/libloc/network-tree.h
@@ -26,6 +26,8 @@ struct loc_network_tree;
 
 int loc_network_tree_new(struct loc_ctx* ctx, struct loc_network_tree** tree);
 
+int loc_network_tree_copy(struct loc_network_tree* tree, struct loc_network_tree** copy);
+
 struct loc_network_tree* loc_network_tree_unref(struct loc_network_tree* tree);
 
 struct loc_network_tree_node* loc_network_tree_get_root(struct loc_network_tree* tree);
diff --git a/src/network-tree.c b/src/network-tree.c
index 0393178..8b9c21e 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -221,6 +221,32 @@ int loc_network_tree_add_network(struct loc_network_tree* tree, struct loc_netwo
 	return 0;
 }
 
+static int loc_network_tree_copy_network(struct loc_network* network, void* data) {
+	struct loc_network_tree* tree = data;
+
+	return loc_network_tree_add_network(tree, network);
+}
+
+/*
+	Creates a new tree with the same networks
+*/
+int loc_network_tree_copy(struct loc_network_tree* tree, struct loc_network_tree** copy) {
+	struct loc_network_tree* t = NULL;
+
+	int r = loc_network_tree_new(tree->ctx, &t);
+	if (r)
+		return r;
+
+	r = loc_network_tree_walk(tree, NULL, loc_network_tree_copy_network, t);
+	if (r) {
+		loc_network_tree_unref(t);
+		return r;
+	}
+
+	*copy = t;
+	return 0;
+}
+
 static int loc_network_tree_delete_network(
 		struct loc_network_tree* tree, struct loc_network* network) {
 	struct loc_network_tree_node* node = NULL;
diff --git a/src/writer.c b/src/writer.c
index ec5f896..d3778f1 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -416,13 +416,25 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	TAILQ_HEAD(network_t, network) networks;
 	TAILQ_INIT(&networks);
 
-	// Cleanup the tree before writing it
-	r = loc_network_tree_cleanup(writer->networks);
+	// Make a copy of the tree, because the cleanup must not affect anything
+	// that is being added to the writer later
+	struct loc_network_tree* tree = NULL;
+
+	r = loc_network_tree_copy(writer->networks, &tree);
 	if (r)
 		return r;
 
+	// Cleanup the tree before writing it
+	r = loc_network_tree_cleanup(tree);
+	if (r) {
+		loc_network_tree_unref(tree);
+		return r;
+	}
+
 	// Add root
-	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
+	struct loc_network_tree_node* root = loc_network_tree_get_root(tree);
+	loc_network_tree_unref(tree);
+
 	node = make_node(root);
 	if (!node)
 		return 1;
-- 
2.43.0


From 4399508cd969cef7f76a46f4b9bd131c2bb63283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 07/98] fix: release networks that could not be added to the
 writer

---
 src/writer.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/writer.c b/src/writer.c
index d3778f1..ba392c5 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -257,7 +257,13 @@ LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_netw
 		return r;
 
 	// Add it to the local tree
-	return loc_network_tree_add_network(writer->networks, *network);
+	r = loc_network_tree_add_network(writer->networks, *network);
+	if (r) {
+		loc_network_unref(*network);
+		*network = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_country** country, const char* country_code) {
-- 
2.43.0


From ee4ba84d9acb429d2dc669bebbf06c1d75d7f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:46 +0000
Subject: [PATCH 08/98] fix: write countries in the order in which they are
 searched

---
 src/writer.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index ba392c5..08bdb06 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -544,6 +544,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the list of countries first
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
@@ -551,6 +554,8 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
+		if (!country)
+			return 1;
 
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
@@ -558,6 +563,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From fe2a6fb02c5aa6276ad0b7bd41da892d224af6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:51 +0000
Subject: [PATCH 09/98] fix: do not write the continent of another country

---
 src/country.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/country.c b/src/country.c
index 8152a89..94ac513 100644
--- a/src/country.c
+++ b/src/country.c
@@ -176,6 +176,9 @@ int loc_country_to_database_v1(struct loc_country* country,
 		struct loc_stringpool* pool, struct loc_database_country_v1* dbobj) {
 	off_t name = 0;
 
+	// Start with an empty object
+	memset(dbobj, 0, sizeof(*dbobj));
+
 	// Add country code
 	if (*country->code)
 		loc_country_code_copy(dbobj->code, country->code);
-- 
2.43.0


From 063904d18e5141252ddaf9fe9259068002abc892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:57 +0000
Subject: [PATCH 10/98] fix: initialize the padding of networks

---
 src/network.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network.c b/src/network.c
index 2de035f..e486cff 100644
--- a/src/network.c
+++ b/src/network.c
@@ -647,6 +647,9 @@ int loc_network_merge(struct loc_network** n,
 }
 
 int loc_network_to_database_v1(struct loc_network* network, struct loc_database_network_v1* dbobj) {
+	// Start with an empty object
+	memset(dbobj, 0, sizeof(*dbobj));
+
 	// Add country code
 	loc_country_code_copy(dbobj->country_code, network->country_code);
 
-- 
2.43.0


From 7b197e30835e1bf5235647bf8895b02425b92692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:39 +0000
Subject: [PATCH 11/98] fix: report when a database could not be written
 completely

---
 src/writer.c | 131 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 96 insertions(+), 35 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 08bdb06..a361bff 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -286,10 +286,29 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 	magic->version = version;
 }
 
-static void align_page_boundary(off_t* offset, FILE* f) {
+static int write_block(off_t* offset, const void* data, const size_t length, FILE* f) {
+	const size_t bytes_written = fwrite(data, 1, length, f);
+
+	*offset += bytes_written;
+
+	// Fail if we could not write everything
+	if (bytes_written < length)
+		return 1;
+
+	return 0;
+}
+
+static int align_page_boundary(off_t* offset, FILE* f) {
+	int r;
+
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		r = write_block(offset, "", 1, f);
+		if (r)
+			return r;
+	}
+
+	return 0;
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -302,6 +321,10 @@ static int loc_database_write_pool(struct loc_writer* writer,
 	size_t pool_length = loc_stringpool_write(writer->pool, f);
 	*offset += pool_length;
 
+	// Fail if we could not write the entire pool
+	if (pool_length < loc_stringpool_get_size(writer->pool))
+		return 1;
+
 	DEBUG(writer->ctx, "Pool has a length of %zu bytes\n", pool_length);
 	header->pool_length = htobe32(pool_length);
 
@@ -320,6 +343,7 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 
 	struct loc_database_as_v1 block;
 	size_t block_length = 0;
+	int r;
 
 	for (unsigned int i = 0; i < as_count; i++) {
 		struct loc_as* as = loc_as_list_get(writer->as_list, i);
@@ -329,20 +353,21 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 		// Convert AS into database format
 		loc_as_to_database_v1(as, writer->pool, &block);
 
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
-
 		// Unref AS
 		loc_as_unref(as);
+
+		// Write to disk
+		r = write_block(offset, &block, sizeof(block), f);
+		if (r)
+			return r;
+
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "AS section has a length of %zu bytes\n", block_length);
 	header->as_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 }
 
 struct node {
@@ -442,6 +467,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	loc_network_tree_unref(tree);
 
 	node = make_node(root);
+	loc_network_tree_node_unref(root);
 	if (!node)
 		return 1;
 
@@ -485,8 +511,10 @@ static int loc_database_write_networks(struct loc_writer* writer,
 			// Append network to be written out later
 			struct network* nw = make_network(network);
 			if (!nw) {
+				loc_network_unref(network);
 				free_node(node);
-				return 1;
+				r = 1;
+				goto ERROR;
 			}
 			TAILQ_INSERT_TAIL(&networks, nw, networks);
 
@@ -500,17 +528,20 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		DEBUG(writer->ctx, "Writing node %p (0 = %d, 1 = %d)\n",
 			node, node->index_zero, node->index_one);
 
-		*offset += fwrite(&db_node, 1, sizeof(db_node), f);
-		network_tree_length += sizeof(db_node);
-
 		free_node(node);
-	}
 
-	loc_network_tree_node_unref(root);
+		r = write_block(offset, &db_node, sizeof(db_node), f);
+		if (r)
+			goto ERROR;
+
+		network_tree_length += sizeof(db_node);
+	}
 
 	header->network_tree_length = htobe32(network_tree_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(offset, f);
+	if (r)
+		goto ERROR;
 
 	DEBUG(writer->ctx, "Networks data section starts at %jd bytes\n", (intmax_t)*offset);
 	header->network_data_offset = htobe32(*offset);
@@ -523,20 +554,38 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
+		free_network(nw);
 		if (r)
-			return r;
+			goto ERROR;
 
-		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
-		network_data_length += sizeof(db_network);
+		r = write_block(offset, &db_network, sizeof(db_network), f);
+		if (r)
+			goto ERROR;
 
-		free_network(nw);
+		network_data_length += sizeof(db_network);
 	}
 
 	header->network_data_length = htobe32(network_data_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(offset, f);
 
-	return 0;
+ERROR:
+	// Free everything that has not been written
+	while (!TAILQ_EMPTY(&nodes)) {
+		node = TAILQ_FIRST(&nodes);
+		TAILQ_REMOVE(&nodes, node, nodes);
+
+		free_node(node);
+	}
+
+	while (!TAILQ_EMPTY(&networks)) {
+		struct network* nw = TAILQ_FIRST(&networks);
+		TAILQ_REMOVE(&networks, nw, networks);
+
+		free_network(nw);
+	}
+
+	return r;
 }
 
 static int loc_database_write_countries(struct loc_writer* writer,
@@ -551,6 +600,7 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	struct loc_database_country_v1 block;
 	size_t block_length = 0;
+	int r;
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
@@ -560,20 +610,21 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
 
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
-
 		// Unref country
 		loc_country_unref(country);
+
+		// Write to disk
+		r = write_block(offset, &block, sizeof(block), f);
+		if (r)
+			return r;
+
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
 	header->countries_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(offset, f);
 }
 
 static int loc_writer_create_signature(struct loc_writer* writer,
@@ -717,7 +768,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Write the magic
-	offset += fwrite(&magic, 1, sizeof(magic), f);
+	r = write_block(&offset, &magic, sizeof(magic), f);
+	if (r) {
+		ERROR(writer->ctx, "Could not write magic: %s\n", strerror(errno));
+		return r;
+	}
 
 	// Skip the space we need to write the header later
 	r = fseek(f, sizeof(header), SEEK_CUR);
@@ -727,7 +782,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	}
 	offset += sizeof(header);
 
-	align_page_boundary(&offset, f);
+	r = align_page_boundary(&offset, f);
+	if (r)
+		return r;
 
 	// Write all ASes
 	r = loc_database_write_as_section(writer, &header, &offset, f);
@@ -797,7 +854,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return 1;
 	}
 
 	// Seek back to the end
@@ -806,7 +863,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r) {
+		ERROR(writer->ctx, "Could not write the database: %s\n", strerror(errno));
+		return r;
+	}
 
-	return r;
+	return 0;
 }
-- 
2.43.0


From 37b16e03729ebeb1aa880f9d63fb3f5ef44083c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:57 +0000
Subject: [PATCH 12/98] fix: report when a database could not be signed

---
 src/writer.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index a361bff..9759735 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -631,19 +631,23 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 		struct loc_database_header_v1* header, FILE* f, EVP_PKEY* private_key,
 		char* signature, size_t* length) {
 	size_t bytes_read = 0;
+	int r;
 
 	DEBUG(writer->ctx, "Creating signature...\n");
 
 	// Read file from the beginning
-	rewind(f);
+	r = fseek(f, 0, SEEK_SET);
+	if (r)
+		return r;
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
 
 	// Initialise the context
-	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
+	r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -662,6 +666,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -671,11 +676,14 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	r = fseek(f, sizeof(*header), SEEK_CUR);
+	if (r)
+		goto END;
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
-- 
2.43.0


From 9e45f8954e84551f47800935f8d2d865fc86a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:20 +0000
Subject: [PATCH 13/98] fix: check that all sections lie within the database
 file

---
 src/database.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/database.c b/src/database.c
index f988dd4..1205d50 100644
--- a/src/database.c
+++ b/src/database.c
@@ -153,7 +153,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= (size_t)db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
@@ -276,6 +276,10 @@ static int loc_database_mmap(struct loc_database* db) {
 */
 static int loc_database_map_objects(struct loc_database* db, struct loc_database_objects* objects,
 		const size_t size, const off_t offset, const size_t length) {
+	// Check if all objects are part of the mapped area
+	if (!__loc_database_check_boundaries(db, db->data + offset, length))
+		return 1;
+
 	// Store parameters
 	objects->data   = db->data + offset;
 	objects->length = length;
@@ -345,6 +349,13 @@ static int loc_database_read_header_v1(struct loc_database* db) {
 	if (!__loc_database_check_boundaries(db, stringpool_start, stringpool_length))
 		return 1;
 
+	// The last string must be terminated
+	if (stringpool_length && stringpool_start[stringpool_length - 1]) {
+		ERROR(db->ctx, "The string pool is not terminated\n");
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Open the stringpool
 	r = loc_stringpool_open(db->ctx, &db->pool, stringpool_start, stringpool_length);
 	if (r)
-- 
2.43.0


From f6896ef58262c33a9c02d70aa586f8de05707e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:25 +0000
Subject: [PATCH 14/98] fix: do not read nodes of an empty network tree

---
 src/database.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 1205d50..35ed6c3 100644
--- a/src/database.c
+++ b/src/database.c
@@ -893,6 +893,10 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 
 	int r;
 
+	// There is nothing to find in an empty tree
+	if (!db->network_node_objects.count)
+		return 0;
+
 	// Fetch the next node
 	node_v1 = (struct loc_database_network_node_v1*)loc_database_object(db,
 		&db->network_node_objects, sizeof(*node_v1), node_index);
@@ -1127,8 +1131,8 @@ LOC_EXPORT int loc_database_enumerator_new(struct loc_database_enumerator** enum
 	// Flatten output?
 	e->flatten = (flags & LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
 
-	// Initialise graph search
-	e->network_stack_depth = 1;
+	// Initialise graph search (there is nothing to do if the tree is empty)
+	e->network_stack_depth = (db->network_node_objects.count > 0) ? 1 : 0;
 	e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
 	if (!e->networks_visited) {
 		ERROR(db->ctx, "Could not allocated visited networks: %m\n");
-- 
2.43.0


From 42757a7a919d22bc7e886ab197a30d3732e71032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:45 +0000
Subject: [PATCH 15/98] fix: verify both signatures even if one belongs to
 another type of key

---
 src/database.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/database.c b/src/database.c
index 35ed6c3..33b3b10 100644
--- a/src/database.c
+++ b/src/database.c
@@ -669,10 +669,9 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 			DEBUG(db->ctx, "The first signature is valid\n");
 			sig1_valid = 1;
 		} else {
-			ERROR(db->ctx, "Error verifying the first signature: %s\n",
+			// This happens if the signature was made with a different type of key
+			DEBUG(db->ctx, "Error verifying the first signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
@@ -689,10 +688,9 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 			DEBUG(db->ctx, "The second signature is valid\n");
 			sig2_valid = 1;
 		} else {
-			ERROR(db->ctx, "Error verifying the second signature: %s\n",
+			// This happens if the signature was made with a different type of key
+			DEBUG(db->ctx, "Error verifying the second signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
-- 
2.43.0


From 544f85542bda6716a8150cd8037a2cd9d668818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:48 +0000
Subject: [PATCH 16/98] fix: summarize address ranges exactly

---
 src/network-list.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..aee0054 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -322,7 +322,7 @@ LOC_EXPORT int loc_network_list_merge(
 
 int loc_network_list_summarize(struct loc_ctx* ctx,
 		const struct in6_addr* first, const struct in6_addr* last, struct loc_network_list** list) {
-	int bits;
+	unsigned int bits;
 	int r;
 
 	if (!list) {
@@ -342,9 +342,9 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		return 1;
 	}
 
-	// Check if the last address is larger than the first address
-	if (loc_address_cmp(first, last) >= 0) {
-		ERROR(ctx, "The first address must be smaller than the last address\n");
+	// Check if the last address is not smaller than the first address
+	if (loc_address_cmp(first, last) > 0) {
+		ERROR(ctx, "The first address must not be larger than the last address\n");
 		errno = EINVAL;
 		return 1;
 	}
@@ -353,20 +353,21 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 	struct in6_addr start = *first;
 
 	while (loc_address_cmp(&start, last) <= 0) {
-		// Count how many leading bits the IP addresses have in common
-		bits = loc_address_common_bits(&start, last);
-		if (bits < 0)
-			return bits;
-
-		// If the start and end address don't have any bits in common, we try
-		// to cut the subnet into halves and try again...
-		else if (bits == 0)
-			bits = 1;
-
-		// Create a network
-		r = loc_network_new(ctx, &network, &start, bits);
-		if (r)
-			return r;
+		// The largest network that can start here
+		bits = loc_address_bit_length(&start);
+
+		// Make it smaller until it does not reach beyond the last address
+		while (1) {
+			r = loc_network_new(ctx, &network, &start, bits);
+			if (r)
+				return r;
+
+			if (loc_address_cmp(loc_network_get_last_address(network), last) <= 0)
+				break;
+
+			loc_network_unref(network);
+			bits++;
+		}
 
 		DEBUG(ctx, "Found network %s, %s -> %s\n",
 			loc_network_str(network),
@@ -383,6 +384,7 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 
 		// The next network starts right after this one
 		start = *loc_network_get_last_address(network);
+		loc_network_unref(network);
 
 		// If we have reached the end of possible IP addresses, we stop
 		if (loc_address_all_ones(&start))
-- 
2.43.0


From d5f79970fe4cf44eabd59b266ad078c6e5ec16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:54 +0000
Subject: [PATCH 17/98] fix: find bogons at the ends of the address space

---
 src/database.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/database.c b/src/database.c
index 33b3b10..e10ceae 100644
--- a/src/database.c
+++ b/src/database.c
@@ -140,6 +140,10 @@ struct loc_database_enumerator {
 	// For bogons
 	struct in6_addr gap6_start;
 	struct in6_addr gap4_start;
+
+	// Set when a network reached the end of the address space
+	int gap6_finished;
+	int gap4_finished;
 };
 
 /*
@@ -1571,6 +1575,7 @@ static int __loc_database_enumerator_next_bogon(
 
 	struct loc_network* network = NULL;
 	struct in6_addr* gap_start = NULL;
+	int* gap_finished = NULL;
 	struct in6_addr gap_end = IN6ADDR_ANY_INIT;
 
 	while (1) {
@@ -1601,10 +1606,12 @@ static int __loc_database_enumerator_next_bogon(
 		switch (family) {
 			case AF_INET6:
 				gap_start = &enumerator->gap6_start;
+				gap_finished = &enumerator->gap6_finished;
 				break;
 
 			case AF_INET:
 				gap_start = &enumerator->gap4_start;
+				gap_finished = &enumerator->gap4_finished;
 				break;
 
 			default:
@@ -1617,17 +1624,17 @@ static int __loc_database_enumerator_next_bogon(
 		const struct in6_addr* last_address = loc_network_get_last_address(network);
 
 		// Skip if this network is a subnet of a former one
-		if (loc_address_cmp(gap_start, last_address) >= 0) {
+		if (*gap_finished || loc_address_cmp(gap_start, last_address) > 0) {
 			loc_network_unref(network);
 			continue;
 		}
 
-		// Search where the gap could end
-		gap_end = *first_address;
-		loc_address_decrement(&gap_end);
-
 		// There is a gap
-		if (loc_address_cmp(gap_start, &gap_end) <= 0) {
+		if (loc_address_cmp(gap_start, first_address) < 0) {
+			// It ends right before this network
+			gap_end = *first_address;
+			loc_address_decrement(&gap_end);
+
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
 			if (r) {
@@ -1638,7 +1645,10 @@ static int __loc_database_enumerator_next_bogon(
 
 		// The gap now starts after this network
 		*gap_start = *last_address;
-		loc_address_increment(gap_start);
+		if (loc_address_all_ones(gap_start))
+			*gap_finished = 1;
+		else
+			loc_address_increment(gap_start);
 
 		loc_network_unref(network);
 
@@ -1651,7 +1661,7 @@ static int __loc_database_enumerator_next_bogon(
 	return 0;
 
 FINISH:
-	if (!loc_address_all_zeroes(&enumerator->gap6_start)) {
+	if (!enumerator->gap6_finished && !loc_address_all_zeroes(&enumerator->gap6_start)) {
 		r = loc_address_reset_last(&gap_end, AF_INET6);
 		if (r)
 			return r;
@@ -1667,7 +1677,7 @@ FINISH:
 		loc_address_reset(&enumerator->gap6_start, AF_INET6);
 	}
 
-	if (!loc_address_all_zeroes(&enumerator->gap4_start)) {
+	if (!enumerator->gap4_finished && !loc_address_all_zeroes(&enumerator->gap4_start)) {
 		r = loc_address_reset_last(&gap_end, AF_INET);
 		if (r)
 			return r;
-- 
2.43.0


From ba6c2c895a79640ca7251e3ca2ea141dd99e4924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:52 +0000
Subject: [PATCH 18/98] fix: reject malformed prefixes and addresses that are
 too long

---
 src/address.c | 45 +++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..c8bd70b 100644
--- a/src/address.c
+++ b/src/address.c
@@ -76,10 +76,16 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 	}
 
 	// Copy the string into the buffer
-	r = snprintf(buffer, sizeof(buffer) - 1, "%s", string);
+	r = snprintf(buffer, sizeof(buffer), "%s", string);
 	if (r < 0)
 		return 1;
 
+	// Anything longer than that cannot be an address
+	if ((size_t)r >= sizeof(buffer)) {
+		errno = EINVAL;
+		return 1;
+	}
+
 	// Find /
 	char* p = strchr(buffer, '/');
 	if (p) {
@@ -136,26 +142,33 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 		return 1;
 	}
 
-	// Did the user request a prefix?
-	if (prefix) {
-		// Set the prefix to the default value
-		const unsigned int max_prefix = loc_address_family_bit_length(family);
+	// Set the prefix to the default value
+	const unsigned int max_prefix = loc_address_family_bit_length(family);
+	unsigned int value = max_prefix;
 
-		// Parse the actual string
-		if (p) {
-			*prefix = strtol(p, NULL, 10);
+	// Parse the prefix if there is one
+	if (p) {
+		// It must consist of digits only
+		if (!*p || strspn(p, "0123456789") != strlen(p)) {
+			errno = EINVAL;
+			return 1;
+		}
 
-			// Check if prefix is within bounds
-			if (*prefix > max_prefix) {
-				errno = EINVAL;
-				return 1;
-			}
+		errno = 0;
+		const unsigned long l = strtoul(p, NULL, 10);
 
-		// If the string didn't contain a prefix, we set the maximum
-		} else {
-			*prefix = max_prefix;
+		// Check if prefix is within bounds
+		if (errno || l > max_prefix) {
+			errno = EINVAL;
+			return 1;
 		}
+
+		value = l;
 	}
 
+	// Did the user request a prefix?
+	if (prefix)
+		*prefix = value;
+
 	return 0;
 }
-- 
2.43.0


From 8612d533fbee7e2d60321bea4b3a43a4099a06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 19/98] fix: parse IPv4-mapped IPv6 networks as what they are

---
 src/address.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/address.c b/src/address.c
index c8bd70b..df4a31f 100644
--- a/src/address.c
+++ b/src/address.c
@@ -166,6 +166,19 @@ int loc_address_parse(struct in6_addr* address, unsigned int* prefix, const char
 		value = l;
 	}
 
+	// IPv4 addresses may be written as IPv4-mapped IPv6 addresses
+	if (prefix && family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(address)) {
+		// The network lies within the IPv4 address space
+		if (value >= 96) {
+			value -= 96;
+
+		// Otherwise, this is a larger IPv6 network
+		} else {
+			const struct in6_addr bitmask = loc_prefix_to_bitmask(value);
+			*address = loc_address_and(address, &bitmask);
+		}
+	}
+
 	// Did the user request a prefix?
 	if (prefix)
 		*prefix = value;
-- 
2.43.0


From 1b9a4b9ecb1820a885c72e1969d51895ab76e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 20/98] fix: do not keep a pointer to the name of a country
 after freeing it

---
 src/country.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/country.c b/src/country.c
index 94ac513..2c3d845 100644
--- a/src/country.c
+++ b/src/country.c
@@ -125,6 +125,7 @@ LOC_EXPORT const char* loc_country_get_name(struct loc_country* country) {
 LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* name) {
 	if (country->name)
 		free(country->name);
+	country->name = NULL;
 
 	if (name) {
 		country->name = strdup(name);
-- 
2.43.0


From a6c39a5a57c1b65c370ccfc0754033e7b87e0e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:07 +0000
Subject: [PATCH 21/98] fix: make enough space for long strings in the string
 pool

---
 src/stringpool.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..db9803b 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -74,9 +74,12 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 
 	// Make sure we have enough space
 	if (pool->length + length > pool->size) {
-		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
+		// Grow by as many blocks as we need
+		const size_t blocks = length / LOC_STRINGPOOL_BLOCK_SIZE + 1;
+
+		int r = loc_stringpool_grow(pool, blocks * LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
-			return r;
+			return -1;
 	}
 
 	off_t offset = pool->length;
-- 
2.43.0


From a26bab90246d46641a95fdc9867d55b1054f4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:13 +0000
Subject: [PATCH 22/98] fix: clear the entire country code of networks

---
 src/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index e486cff..f45d449 100644
--- a/src/network.c
+++ b/src/network.c
@@ -205,7 +205,7 @@ LOC_EXPORT const char* loc_network_get_country_code(struct loc_network* network)
 LOC_EXPORT int loc_network_set_country_code(struct loc_network* network, const char* country_code) {
 	// Set empty country code
 	if (!country_code || !*country_code) {
-		*network->country_code = '\0';
+		memset(network->country_code, '\0', sizeof(network->country_code));
 		return 0;
 	}
 
-- 
2.43.0


From 13c4438a86b09c10edc4a5595e0b390462c9cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:18 +0000
Subject: [PATCH 23/98] fix: free the previous search string of an enumerator

---
 src/database.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/database.c b/src/database.c
index e10ceae..a06ae4c 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1181,7 +1181,13 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
+	// Free any previous string
+	if (enumerator->string)
+		free(enumerator->string);
+
 	enumerator->string = strdup(string);
+	if (!enumerator->string)
+		return 1;
 
 	// Make the string lowercase
 	for (char *p = enumerator->string; *p; p++)
-- 
2.43.0


From cf65a9e0af27bb90c8020559c638a897ecf062b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:40 +0000
Subject: [PATCH 24/98] fix: do not leak memory when formatting reverse
 pointers and on failing to split networks

---
 src/network.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/network.c b/src/network.c
index f45d449..735f942 100644
--- a/src/network.c
+++ b/src/network.c
@@ -357,8 +357,11 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
@@ -723,6 +726,7 @@ ERROR:
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* p = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -739,19 +743,25 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 	// Initialize the buffer
 	r = asprintf(&buffer, "%s", suffix);
 	if (r < 0)
-		goto ERROR;
+		return NULL;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		r = asprintf(&p, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		r = asprintf(&p, "*.%s", buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	return buffer;
-- 
2.43.0


From 2b434287ced03ce5aadc453e0a0a946644e323ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 25/98] fix: release networks when a flattened enumeration
 fails

---
 src/database.c | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/database.c b/src/database.c
index a06ae4c..4e26718 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1470,19 +1470,15 @@ static int __loc_database_enumerator_next_network_flattened(
 	if (!enumerator->subnets) {
 		r = loc_network_list_new(enumerator->ctx, &enumerator->subnets);
 		if (r)
-			return r;
+			goto ERROR;
 	}
 
 	// Search all subnets from the database
 	while (1) {
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
-		if (r) {
-			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
-		}
+		if (r)
+			goto ERROR;
 
 		// End if we did not receive another subnet
 		if (!subnet)
@@ -1493,9 +1489,7 @@ static int __loc_database_enumerator_next_network_flattened(
 			r = loc_network_list_push(enumerator->subnets, subnet);
 			if (r) {
 				loc_network_unref(subnet);
-				loc_network_list_clear(enumerator->subnets);
-
-				return r;
+				goto ERROR;
 			}
 
 			loc_network_unref(subnet);
@@ -1506,9 +1500,7 @@ static int __loc_database_enumerator_next_network_flattened(
 		r = loc_network_list_push(enumerator->stack, subnet);
 		if (r) {
 			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
+			goto ERROR;
 		}
 
 		loc_network_unref(subnet);
@@ -1529,26 +1521,22 @@ static int __loc_database_enumerator_next_network_flattened(
 	// without the subnets.
 	struct loc_network_list* excluded = loc_network_exclude_list(*network, enumerator->subnets);
 	if (!excluded) {
-		loc_network_list_clear(enumerator->subnets);
-		return 1;
+		r = 1;
+		goto ERROR;
 	}
 
 	// Merge subnets onto the stack
 	r = loc_network_list_merge(enumerator->stack, enumerator->subnets);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	// Push excluded list onto the stack
 	r = loc_network_list_merge(enumerator->stack, excluded);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	loc_network_list_clear(enumerator->subnets);
@@ -1558,6 +1546,16 @@ static int __loc_database_enumerator_next_network_flattened(
 	loc_network_unref(*network);
 
 	return __loc_database_enumerator_next_network_flattened(enumerator, network);
+
+ERROR:
+	// Do not return anything on error
+	loc_network_unref(*network);
+	*network = NULL;
+
+	if (enumerator->subnets)
+		loc_network_list_clear(enumerator->subnets);
+
+	return r;
 }
 
 /*
-- 
2.43.0


From bc5d307b17810ebe08c0a5cc17d4f111f8a9cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:42 +0000
Subject: [PATCH 26/98] fix: split networks around the IPv4-mapped address
 space correctly

---
 src/network.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/network.c b/src/network.c
index 735f942..90b41db 100644
--- a/src/network.c
+++ b/src/network.c
@@ -330,33 +330,41 @@ LOC_EXPORT int loc_network_is_subnet(struct loc_network* self, struct loc_networ
 	return 1;
 }
 
+static int loc_network_new_half(struct loc_network* network,
+		struct loc_network** subnet, struct in6_addr* address) {
+	unsigned int prefix = network->prefix + 1;
+
+	// Adjust prefix for IPv4
+	if (IN6_IS_ADDR_V4MAPPED(address))
+		prefix -= 96;
+
+	return loc_network_new(network->ctx, subnet, address, prefix);
+}
+
 LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 		struct loc_network** subnet1, struct loc_network** subnet2) {
 	int r;
 	*subnet1 = NULL;
 	*subnet2 = NULL;
 
-	// New prefix length
-	unsigned int prefix = loc_network_prefix(network) + 1;
-
-	// Check if the new prefix is valid
-	if (!loc_address_valid_prefix(&network->first_address, prefix)) {
-		ERROR(network->ctx, "Invalid prefix: %d\n", prefix);
+	// Check if there is anything left to split
+	if (network->prefix >= 128) {
+		ERROR(network->ctx, "Invalid prefix: %d\n", loc_network_prefix(network) + 1);
 		errno = EINVAL;
 		return 1;
 	}
 
 	// Create the first half of the network
-	r = loc_network_new(network->ctx, subnet1, &network->first_address, prefix);
+	r = loc_network_new_half(network, subnet1, &network->first_address);
 	if (r)
 		return r;
 
-	// The next subnet starts after the first one
-	struct in6_addr first_address = (*subnet1)->last_address;
-	loc_address_increment(&first_address);
+	// The second half has the next bit set
+	struct in6_addr first_address = network->first_address;
+	loc_address_set_bit(&first_address, network->prefix, 1);
 
 	// Create the second half of the network
-	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
+	r = loc_network_new_half(network, subnet2, &first_address);
 	if (r) {
 		loc_network_unref(*subnet1);
 		*subnet1 = NULL;
-- 
2.43.0


From e01c8ed432e998231b578b16e21746325438b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:35 +0000
Subject: [PATCH 27/98] fix: match special country codes exactly

---
 src/country.c | 2 +-
 src/network.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/country.c b/src/country.c
index 2c3d845..96bca9b 100644
--- a/src/country.c
+++ b/src/country.c
@@ -230,7 +230,7 @@ LOC_EXPORT int loc_country_special_code_to_flag(const char* cc) {
 	// Return flags for any known special country
 	for (const struct loc_special_country* country = loc_special_countries;
 			country->flags; country++) {
-		if (strncmp(country->code, cc, 2) == 0)
+		if (strcmp(country->code, cc) == 0)
 			return country->flags;
 	}
 
diff --git a/src/network.c b/src/network.c
index 90b41db..06c1188 100644
--- a/src/network.c
+++ b/src/network.c
@@ -223,7 +223,7 @@ LOC_EXPORT int loc_network_matches_country_code(struct loc_network* network, con
 	const int flag = loc_country_special_code_to_flag(country_code);
 
 	// If we found a flag, we will return whether it is set or not
-	if (flag)
+	if (flag > 0)
 		return loc_network_has_flag(network, flag);
 
 	// Check country code
-- 
2.43.0


From 1ff3b3505590e7572ada1ca64a19ab992801d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:40 +0000
Subject: [PATCH 28/98] fix: accept DNS names of any length when looking for
 the latest version

---
 src/resolv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..43ca90b 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -72,7 +72,7 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
     unsigned char* payload = answer + sizeof(HEADER);
 
     // Expand domain name
-    char host[128];
+    char host[MAXDNAME];
     if ((len = dn_expand(answer, end, payload, host, sizeof(host))) < 0) {
         ERROR(ctx, "dn_expand() failed\n");
         return -1;
-- 
2.43.0


From 073c1c35b28f753dfb2217a4f1d76fe26dce5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:23 +0000
Subject: [PATCH 29/98] fix: do not write past the end of a DNS reply

---
 src/resolv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 43ca90b..4390da4 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -17,6 +17,7 @@
 #include <arpa/nameser.h>
 #include <arpa/nameser_compat.h>
 #include <resolv.h>
+#include <stdint.h>
 #include <string.h>
 #include <time.h>
 
@@ -137,8 +138,9 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
         return -1;
     }
 
-    // Get start of the string
-    unsigned char* txt = payload + 1;
+    // Copy the string (and terminate it)
+    unsigned char txt[UINT8_MAX + 1];
+    memcpy(txt, payload + 1, len);
     txt[len] = '\0';
 
     DEBUG(ctx, "Resolved to: %s\n", txt);
-- 
2.43.0


From 7ddba3c468288eea4b4335d18eb5978f8c786f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:29 +0000
Subject: [PATCH 30/98] fix: accept all AS numbers of 32 bits in Python

---
 src/python/as.c       | 33 +++++++++++++++++++++++++++------
 src/python/as.h       |  2 ++
 src/python/database.c |  2 +-
 src/python/writer.c   |  2 +-
 4 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 2f4b26f..d49d8be 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -31,6 +31,27 @@ PyObject* new_as(PyTypeObject* type, struct loc_as* as) {
 	return (PyObject*)self;
 }
 
+/*
+	Converts a Python number into an ASN (to be used with O&)
+*/
+int PyASN_Converter(PyObject* object, void* address) {
+	uint32_t* number = address;
+
+	const unsigned long long asn = PyLong_AsUnsignedLongLong(object);
+	if (PyErr_Occurred())
+		return 0;
+
+	// ASNs have 32 bits
+	if (asn > UINT32_MAX) {
+		PyErr_Format(PyExc_OverflowError, "ASN out of range: %llu", asn);
+		return 0;
+	}
+
+	*number = asn;
+
+	return 1;
+}
+
 static PyObject* AS_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 	ASObject* self = (ASObject*)type->tp_alloc(type, 0);
 
@@ -47,7 +68,7 @@ static void AS_dealloc(ASObject* self) {
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return -1;
 
 	// Create the AS object
@@ -63,9 +84,9 @@ static PyObject* AS_repr(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("<AS %d (%s)>", number, name);
+		return PyUnicode_FromFormat("<AS %u (%s)>", number, name);
 
-	return PyUnicode_FromFormat("<AS %d>", number);
+	return PyUnicode_FromFormat("<AS %u>", number);
 }
 
 static PyObject* AS_str(ASObject* self) {
@@ -73,15 +94,15 @@ static PyObject* AS_str(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("AS%d - %s", number, name);
+		return PyUnicode_FromFormat("AS%u - %s", number, name);
 
-	return PyUnicode_FromFormat("AS%d", number);
+	return PyUnicode_FromFormat("AS%u", number);
 }
 
 static PyObject* AS_get_number(ASObject* self) {
 	uint32_t number = loc_as_get_number(self->as);
 
-	return PyLong_FromLong(number);
+	return PyLong_FromUnsignedLong(number);
 }
 
 static PyObject* AS_get_name(ASObject* self) {
diff --git a/src/python/as.h b/src/python/as.h
index d7fe36a..9f80e24 100644
--- a/src/python/as.h
+++ b/src/python/as.h
@@ -31,4 +31,6 @@ extern PyTypeObject ASType;
 
 PyObject* new_as(PyTypeObject* type, struct loc_as* as);
 
+int PyASN_Converter(PyObject* object, void* address);
+
 #endif /* PYTHON_LOCATION_AS_H */
diff --git a/src/python/database.c b/src/python/database.c
index f84b003..39ec5f4 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -143,7 +143,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return NULL;
 
 	// Try to retrieve the AS
diff --git a/src/python/writer.c b/src/python/writer.c
index 1c06384..6d05990 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -149,7 +149,7 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 	struct loc_as* as;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return NULL;
 
 	// Create AS object
-- 
2.43.0


From a4e2e678a6cb6a001fa3031ea2b31ae9abaef10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 31/98] fix: raise ValueError when looking up an invalid
 address in Python

---
 src/python/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index 39ec5f4..c045053 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -213,9 +213,11 @@ static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
 		switch (errno) {
 			case EINVAL:
 				PyErr_Format(PyExc_ValueError, "Invalid IP address: %s", address);
+				break;
 
 			default:
 				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From 37ecbaf21debd22c16d244e8d16149c9aaf5c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:08 +0000
Subject: [PATCH 32/98] fix: raise exceptions in Python when objects could not
 be created

---
 src/python/as.c       |  4 +++-
 src/python/country.c  | 13 ++++++++++++-
 src/python/database.c |  1 +
 src/python/writer.c   | 29 ++++++++++++++++++++---------
 4 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index d49d8be..76d97ec 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -73,8 +73,10 @@ static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &self->as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/country.c b/src/python/country.c
index 7114846..b8e1821 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -52,8 +52,19 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the country object
 	int r = loc_country_new(loc_ctx, &self->country, country_code);
-	if (r)
+	if (r) {
+		switch (errno) {
+			case EINVAL:
+				PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
+				break;
+
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
+		}
+
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/database.c b/src/python/database.c
index c045053..f96360f 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -162,6 +162,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Unexpected error
+	PyErr_SetFromErrno(PyExc_OSError);
 	return NULL;
 }
 
diff --git a/src/python/writer.c b/src/python/writer.c
index 6d05990..2f79d35 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -154,8 +154,10 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 
 	// Create AS object
 	int r = loc_writer_add_as(self->writer, &as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
+	}
 
 	PyObject* obj = new_as(&ASType, as);
 	loc_as_unref(as);
@@ -173,14 +175,17 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	// Create country object
 	int r = loc_writer_add_country(self->writer, &country, country_code);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
+		switch (errno) {
+			case EINVAL:
+				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
 			default:
-				return NULL;
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
+
+		return NULL;
 	}
 
 	PyObject* obj = new_country(&CountryType, country);
@@ -199,13 +204,19 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 	// Create network object
 	int r = loc_writer_add_network(self->writer, &network, string);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
+		// There is already a network in the tree
+		if (r == -EBUSY) {
+			PyErr_SetString(PyExc_IndexError, "A network already exists here");
+			return NULL;
+		}
+
+		switch (errno) {
+			case EINVAL:
 				PyErr_SetString(PyExc_ValueError, "Invalid network");
 				break;
 
-			case -EBUSY:
-				PyErr_SetString(PyExc_IndexError, "A network already exists here");
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
 				break;
 		}
 
-- 
2.43.0


From 3e4a47cd20b42f5dd41cf1aecf10948b244674eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:28 +0000
Subject: [PATCH 33/98] fix: do not crash in Python when attributes are unset,
 deleted or set to something else

---
 src/python/as.c      | 20 ++++++++++++++++++--
 src/python/country.c | 25 ++++++++++++++++++++++---
 src/python/network.c | 14 ++++++++++++++
 src/python/writer.c  | 27 ++++++++++++++++++++++++---
 4 files changed, 78 insertions(+), 8 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 76d97ec..97cdcbf 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -110,16 +110,32 @@ static PyObject* AS_get_number(ASObject* self) {
 static PyObject* AS_get_name(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
+	// Return None if no name has been set
+	if (!name)
+		Py_RETURN_NONE;
+
 	return PyUnicode_FromString(name);
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = NULL;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "name cannot be deleted");
+		return -1;
+	}
+
+	// None clears the name
+	if (value != Py_None) {
+		name = PyUnicode_AsUTF8(value);
+		if (!name)
+			return -1;
+	}
 
 	int r = loc_as_set_name(self->as, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/country.c b/src/python/country.c
index b8e1821..ebbc718 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -100,12 +100,24 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = NULL;
+
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "name cannot be deleted");
+		return -1;
+	}
+
+	// None clears the name
+	if (value != Py_None) {
+		name = PyUnicode_AsUTF8(value);
+		if (!name)
+			return -1;
+	}
 
 	int r = loc_country_set_name(self->country, name);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set name: %s", name);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -121,12 +133,19 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "continent_code cannot be deleted");
+		return -1;
+	}
+
 	const char* code = PyUnicode_AsUTF8(value);
+	if (!code)
+		return -1;
 
 	int r = loc_country_set_continent_code(self->country, code);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set continent code: %s", code);
-		return r;
+		return -1;
 	}
 
 	return 0;
diff --git a/src/python/network.c b/src/python/network.c
index 4bae918..1961e0c 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -102,7 +102,14 @@ static PyObject* Network_get_country_code(NetworkObject* self) {
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "country_code cannot be deleted");
+		return -1;
+	}
+
 	const char* country_code = PyUnicode_AsUTF8(value);
+	if (!country_code)
+		return -1;
 
 	int r = loc_network_set_country_code(self->network, country_code);
 	if (r) {
@@ -126,7 +133,14 @@ static PyObject* Network_get_asn(NetworkObject* self) {
 }
 
 static int Network_set_asn(NetworkObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "asn cannot be deleted");
+		return -1;
+	}
+
 	long int asn = PyLong_AsLong(value);
+	if (asn == -1 && PyErr_Occurred())
+		return -1;
 
 	// Check if the ASN is within the valid range
 	if (asn <= 0) {
diff --git a/src/python/writer.c b/src/python/writer.c
index 2f79d35..38508a9 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -98,12 +98,19 @@ static PyObject* Writer_get_vendor(WriterObject* self) {
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "vendor cannot be deleted");
+		return -1;
+	}
+
 	const char* vendor = PyUnicode_AsUTF8(value);
+	if (!vendor)
+		return -1;
 
 	int r = loc_writer_set_vendor(self->writer, vendor);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set vendor: %s", vendor);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -116,12 +123,19 @@ static PyObject* Writer_get_description(WriterObject* self) {
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "description cannot be deleted");
+		return -1;
+	}
+
 	const char* description = PyUnicode_AsUTF8(value);
+	if (!description)
+		return -1;
 
 	int r = loc_writer_set_description(self->writer, description);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set description: %s", description);
-		return r;
+		return -1;
 	}
 
 	return 0;
@@ -134,12 +148,19 @@ static PyObject* Writer_get_license(WriterObject* self) {
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_TypeError, "license cannot be deleted");
+		return -1;
+	}
+
 	const char* license = PyUnicode_AsUTF8(value);
+	if (!license)
+		return -1;
 
 	int r = loc_writer_set_license(self->writer, license);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Could not set license: %s", license);
-		return r;
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From d7fa0959cfd5b4179e914f1deac7fc2653f2dd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:57 +0000
Subject: [PATCH 34/98] fix: raise ValueError for invalid country codes and
 ASNs when searching for networks

---
 src/python/database.c | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index f96360f..1c3386c 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -307,6 +307,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 	int flags = 0;
 	int family = 0;
 	int flatten = 0;
+	PyObject* obj = NULL;
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwargs, "|O!O!iip", kwlist,
 			&PyList_Type, &country_codes, &PyList_Type, &asn_list, &flags, &family, &flatten))
@@ -326,7 +327,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_country_list_new(loc_ctx, &countries);
 		if (r) {
 			PyErr_SetString(PyExc_SystemError, "Could not create country list");
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(country_codes); i++) {
@@ -335,22 +336,26 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			if (!PyUnicode_Check(item)) {
 				PyErr_SetString(PyExc_TypeError, "Country codes must be strings");
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
+			if (!country_code) {
+				loc_country_list_unref(countries);
+				goto ERROR;
+			}
 
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
 			if (r) {
-				if (r == -EINVAL) {
+				if (errno == EINVAL) {
 					PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 				} else {
 					PyErr_SetString(PyExc_SystemError, "Could not create country");
 				}
 
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			// Append it to the list
@@ -360,7 +365,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_country_list_unref(countries);
 				loc_country_unref(country);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_country_unref(country);
@@ -371,7 +376,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_SystemError);
 
 			loc_country_list_unref(countries);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_country_list_unref(countries);
@@ -383,7 +388,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_as_list_new(loc_ctx, &asns);
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(asn_list); i++) {
@@ -393,10 +398,14 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetString(PyExc_TypeError, "ASNs must be numbers");
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
-			unsigned long number = PyLong_AsLong(item);
+			uint32_t number = 0;
+			if (!PyASN_Converter(item, &number)) {
+				loc_as_list_unref(asns);
+				goto ERROR;
+			}
 
 			struct loc_as* as;
 			r = loc_as_new(loc_ctx, &as, number);
@@ -404,8 +413,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetFromErrno(PyExc_OSError);
 
 				loc_as_list_unref(asns);
-				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			r = loc_as_list_append(asns, as);
@@ -414,7 +422,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_as_unref(as);
@@ -425,7 +433,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_OSError);
 
 			loc_as_list_unref(asns);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_as_list_unref(asns);
@@ -437,7 +445,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -447,11 +455,13 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
-	PyObject* obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
+	obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
+
+ERROR:
 	loc_database_enumerator_unref(enumerator);
 
 	return obj;
-- 
2.43.0


From 1f0d83141fad818b1372701bf737d195e8f728aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:24 +0000
Subject: [PATCH 35/98] fix: do not allow creating database enumerators without
 a database

---
 src/python/database.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 1c3386c..cea9e9e 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -602,12 +602,6 @@ PyTypeObject DatabaseType = {
 	.tp_repr =               (reprfunc)Database_repr,
 };
 
-static PyObject* DatabaseEnumerator_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
-	DatabaseEnumeratorObject* self = (DatabaseEnumeratorObject*)type->tp_alloc(type, 0);
-
-	return (PyObject*)self;
-}
-
 static void DatabaseEnumerator_dealloc(DatabaseEnumeratorObject* self) {
 	loc_database_enumerator_unref(self->enumerator);
 
@@ -675,7 +669,6 @@ PyTypeObject DatabaseEnumeratorType = {
 	.tp_basicsize =          sizeof(DatabaseEnumeratorObject),
 	.tp_flags =              Py_TPFLAGS_DEFAULT,
 	.tp_alloc =              PyType_GenericAlloc,
-	.tp_new =                DatabaseEnumerator_new,
 	.tp_dealloc =            (destructor)DatabaseEnumerator_dealloc,
 	.tp_iter =               PyObject_SelfIter,
 	.tp_iternext =           (iternextfunc)DatabaseEnumerator_next,
-- 
2.43.0


From 67d23b9944431b82313c95e9599f51b3c3d4ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:27 +0000
Subject: [PATCH 36/98] fix: do not drop references to None that the writer
 does not own

---
 src/python/writer.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 38508a9..a548477 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -50,15 +50,11 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 		return -1;
 
 	// Ignore None
-	if (private_key1 == Py_None) {
-		Py_DECREF(private_key1);
+	if (private_key1 == Py_None)
 		private_key1 = NULL;
-	}
 
-	if (private_key2 == Py_None) {
-		Py_DECREF(private_key2);
+	if (private_key2 == Py_None)
 		private_key2 = NULL;
-	}
 
 	// Convert into FILE*
 	if (private_key1) {
-- 
2.43.0


From 96678fad37650116d4c6b88811c110cb783de245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:31 +0000
Subject: [PATCH 37/98] fix: raise an exception when the writer could not load
 a private key

---
 src/python/writer.c | 74 +++++++++++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index a548477..20b08e0 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <unistd.h>
+
 #include <libloc/libloc.h>
 #include <libloc/writer.h>
 
@@ -38,12 +40,36 @@ static void Writer_dealloc(WriterObject* self) {
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
 
+static FILE* Writer_open_key(PyObject* key) {
+	// Fetch the file descriptor
+	int fd = PyObject_AsFileDescriptor(key);
+	if (fd < 0)
+		return NULL;
+
+	// Python keeps its own file descriptor
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
+	// Re-open file descriptor
+	FILE* f = fdopen(fd, "r");
+	if (!f) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
+	}
+
+	return f;
+}
+
 static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_writer* writer = NULL;
 	PyObject* private_key1 = NULL;
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
 	FILE* f2 = NULL;
-	int fd;
+	int r = -1;
 
 	// Parse arguments
 	if (!PyArg_ParseTuple(args, "|OO", &private_key1, &private_key2))
@@ -58,33 +84,37 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Convert into FILE*
 	if (private_key1) {
-		fd = PyObject_AsFileDescriptor(private_key1);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f1 = fdopen(fd, "r");
-		if (!f1) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
+		f1 = Writer_open_key(private_key1);
+		if (!f1)
+			goto ERROR;
 	}
 
 	if (private_key2) {
-		fd = PyObject_AsFileDescriptor(private_key2);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f2 = fdopen(fd, "r");
-		if (!f2) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
+		f2 = Writer_open_key(private_key2);
+		if (!f2)
+			goto ERROR;
 	}
 
 	// Create the writer object
-	return loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	if (loc_writer_new(loc_ctx, &writer, f1, f2)) {
+		PyErr_SetString(PyExc_ValueError, "Could not create writer (invalid key?)");
+		goto ERROR;
+	}
+
+	// Release the previous writer (if any)
+	if (self->writer)
+		loc_writer_unref(self->writer);
+
+	self->writer = writer;
+	r = 0;
+
+ERROR:
+	if (f1)
+		fclose(f1);
+	if (f2)
+		fclose(f2);
+
+	return r;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
-- 
2.43.0


From 12d9b32956507f52a040217ba477e7525409e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:53 +0000
Subject: [PATCH 38/98] fix: close the public key after verifying a database in
 Python

---
 src/python/database.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index cea9e9e..1837a22 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <unistd.h>
+
 #include <libloc/libloc.h>
 #include <libloc/as.h>
 #include <libloc/as-list.h>
@@ -94,14 +96,23 @@ static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
 	if (fd < 0)
 		return NULL;
 
+	// Python keeps its own file descriptor
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
 	// Re-open file descriptor
 	f = fdopen(fd, "r");
 	if (!f) {
 		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
 		return NULL;
 	}
 
 	int r = loc_database_verify(self->db, f);
+	fclose(f);
 
 	if (r == 0)
 		Py_RETURN_TRUE;
-- 
2.43.0


From 50af1559ce83a30b7fe8fd139fba975fdf0eb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:17 +0000
Subject: [PATCH 39/98] fix: do not call equal objects different in Python

---
 src/python/as.c      | 6 ++++++
 src/python/country.c | 6 ++++++
 src/python/network.c | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index 97cdcbf..30a66de 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -159,6 +159,12 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
diff --git a/src/python/country.c b/src/python/country.c
index ebbc718..b57c477 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -169,6 +169,12 @@ static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int o
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
diff --git a/src/python/network.c b/src/python/network.c
index 1961e0c..bfe21f5 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -280,6 +280,12 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 
 			Py_RETURN_FALSE;
 
+		case Py_NE:
+			if (r != 0)
+				Py_RETURN_TRUE;
+
+			Py_RETURN_FALSE;
+
 		case Py_LT:
 			if (r < 0)
 				Py_RETURN_TRUE;
-- 
2.43.0


From e05a4cdef6743afb892471c23a1baab38c5093b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:20 +0000
Subject: [PATCH 40/98] fix: return nil in Lua when a country is not in the
 database

---
 src/lua/database.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua/database.c b/src/lua/database.c
index dfdb705..4fe7861 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -166,7 +166,7 @@ static int Database_get_country(lua_State* L) {
 
 	// Fetch the country
 	r = loc_database_get_country(self->db, &country, code);
-	if (r) {
+	if (r || !country) {
 		lua_pushnil(L);
 		return 1;
 	}
-- 
2.43.0


From f69cefb79edc7dd271c26debdb33ccf243f4f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:24 +0000
Subject: [PATCH 41/98] fix: do not free an enumerator in Lua that could not be
 created

---
 src/lua/database.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lua/database.c b/src/lua/database.c
index 4fe7861..1ea2e89 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -285,6 +285,7 @@ static int Database_list_networks(lua_State* L) {
 
 	// Allocate a new enumerator
 	e = lua_newuserdata(L, sizeof(*e));
+	e->e = NULL;
 	luaL_setmetatable(L, "location.DatabaseEnumerator");
 
 	// Create a new enumerator
-- 
2.43.0


From 1df6113f6cf7249cfa00c973af029c7e45a99d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:27 +0000
Subject: [PATCH 42/98] fix: handle all AS numbers of 32 bits in Lua, and only
 those

---
 src/lua/as.c       | 23 ++++++++++++++++++-----
 src/lua/as.h       |  2 ++
 src/lua/database.c |  2 +-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 558fcbf..dbb7187 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -15,6 +15,7 @@
 */
 
 #include <errno.h>
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -40,6 +41,15 @@ static AS* luaL_checkas(lua_State* L, int i) {
 	return (AS*)userdata;
 }
 
+uint32_t luaL_checkasn(lua_State* L, int i) {
+	const lua_Number number = luaL_checknumber(L, i);
+
+	// ASNs have 32 bits
+	luaL_argcheck(L, number >= 0 && number <= UINT32_MAX, i, "ASN out of range");
+
+	return number;
+}
+
 int create_as(lua_State* L, struct loc_as* as) {
 	// Allocate a new object
 	AS* self = (AS*)lua_newuserdata(L, sizeof(*self));
@@ -55,11 +65,11 @@ int create_as(lua_State* L, struct loc_as* as) {
 
 static int AS_new(lua_State* L) {
 	struct loc_as* as = NULL;
-	unsigned int n = 0;
+	uint32_t n = 0;
 	int r;
 
 	// Fetch the number
-	n = luaL_checknumber(L, 1);
+	n = luaL_checkasn(L, 1);
 
 	// Create the AS
 	r = loc_as_new(ctx, &as, n);
@@ -88,14 +98,17 @@ static int AS_gc(lua_State* L) {
 static int AS_tostring(lua_State* L) {
 	AS* self = luaL_checkas(L, 1);
 
-	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
+	char number[16];
+
+	// Format the number (lua_pushfstring does not know any unsigned numbers)
+	snprintf(number, sizeof(number), "%u", loc_as_get_number(self->as));
 
 	// Return string
 	if (name)
-		lua_pushfstring(L, "AS%d - %s", number, name);
+		lua_pushfstring(L, "AS%s - %s", number, name);
 	else
-		lua_pushfstring(L, "AS%d", number);
+		lua_pushfstring(L, "AS%s", number);
 
 	return 1;
 }
diff --git a/src/lua/as.h b/src/lua/as.h
index 0ea34f9..ff02a1a 100644
--- a/src/lua/as.h
+++ b/src/lua/as.h
@@ -24,6 +24,8 @@
 
 int register_as(lua_State* L);
 
+uint32_t luaL_checkasn(lua_State* L, int i);
+
 int create_as(lua_State* L, struct loc_as* as);
 
 #endif /* LUA_LOCATION_AS_H */
diff --git a/src/lua/database.c b/src/lua/database.c
index 1ea2e89..c79df61 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -139,7 +139,7 @@ static int Database_get_as(lua_State* L) {
 	Database* self = luaL_checkdatabase(L, 1);
 
 	// Fetch number
-	uint32_t asn = luaL_checknumber(L, 2);
+	uint32_t asn = luaL_checkasn(L, 2);
 
 	// Fetch the AS
 	r = loc_database_get_as(self->db, &as, asn);
-- 
2.43.0


From 8b89887cdccea9f5a616910ffb8d53d910ba3cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:30 +0000
Subject: [PATCH 43/98] fix: return undef in Perl when a country or its data is
 not in the database

---
 src/perl/Location.xs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index be6df14..4fce6e2 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -267,12 +267,13 @@ get_country_name(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
-			RETVAL = newSVpv(country_name, strlen(country_name));
+			if (country_name)
+				RETVAL = newSVpv(country_name, strlen(country_name));
 
 			loc_country_unref(country);
 		}
@@ -289,12 +290,13 @@ get_continent_code(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
-			RETVAL = newSVpv(continent_code, strlen(continent_code));
+			if (continent_code)
+				RETVAL = newSVpv(continent_code, strlen(continent_code));
 
 			loc_country_unref(country);
 		}
-- 
2.43.0


From 19dda80ea1ac5a973b3a54f22f867ba7b3ad29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:34 +0000
Subject: [PATCH 44/98] fix: do not return the name of another AS for numbers
 that are out of range in Perl

---
 src/perl/Location.xs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 4fce6e2..eb8f7f0 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -307,19 +307,25 @@ get_continent_code(db, ccode)
 SV*
 get_as_name(db, as_number)
 	struct loc_database* db;
-	unsigned int as_number;
+	UV as_number;
 
 	CODE:
 		RETVAL = &PL_sv_undef;
 
 		// Lookup AS.
-		struct loc_as *as;
-		int err = loc_database_get_as(db, &as, as_number);
+		struct loc_as *as = NULL;
+		int err = 1;
+
+		// AS numbers have 32 bits
+		if (as_number <= UINT32_MAX)
+			err = loc_database_get_as(db, &as, as_number);
+
 		if(!err) {
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
 
-			RETVAL = newSVpv(as_name, strlen(as_name));
+			if (as_name)
+				RETVAL = newSVpv(as_name, strlen(as_name));
 
 			loc_as_unref(as);
 		}
-- 
2.43.0


From 00ea2cc0da885b9e9f512ccae973978f735e1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:17 +0000
Subject: [PATCH 45/98] fix: create the output writer for xt_geoip

---
 src/python/location/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1d147b1..930923f 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -218,8 +218,7 @@ class XTGeoIPOutputWriter(OutputWriter):
 	"""
 	mode = "wb"
 
-	@property
-	def tag(self):
+	def _make_tag(self):
 		return self.name
 
 	@property
-- 
2.43.0


From 55f78b9b4efecd606af65fc6ed96625810c97be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:22 +0000
Subject: [PATCH 46/98] fix: export all networks that match special country
 codes

---
 src/python/location/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 930923f..2d205ca 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -260,9 +260,15 @@ class Exporter(object):
 				country_code for country_code in countries if not country_code in FLAGS.values()
 			]
 
+			# Search by flags for the special country codes
+			flags = 0
+			for flag in FLAGS:
+				if FLAGS[flag] in countries:
+					flags |= flag
+
 			# Get all networks that match the family
 			networks = self.db.search_networks(family=family,
-				country_codes=country_codes, asns=asns, flatten=True)
+				country_codes=country_codes, asns=asns, flags=flags, flatten=True)
 
 			# Walk through all networks
 			for network in networks:
-- 
2.43.0


From b9e325c9d3c9a854efddbabe3eb7bc3d234c2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:45 +0000
Subject: [PATCH 47/98] fix: throw away data of other mirrors before
 downloading from the next one

---
 src/python/location/downloader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 3dffbc7..c4023dd 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -129,6 +129,10 @@ class Downloader(object):
 				# Prepare HTTP request
 				req = self._make_request(url, baseurl=mirror, headers=headers)
 
+				# Throw away anything downloaded from another mirror
+				t.seek(0)
+				t.truncate()
+
 				try:
 					with self._send_request(req) as res:
 						decompressor = lzma.LZMADecompressor()
@@ -161,16 +165,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
-					# Throw away any downloaded content and try again
-					t.truncate()
-
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
 						log.warning("Downloaded database is outdated. Trying next mirror...")
-
-						# Throw away the data and try again
-						t.truncate()
 						continue
 
 					# Make the file readable for everyone
-- 
2.43.0


From 8a7be85948080812f239664e3c5f1950aa5925e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:50 +0000
Subject: [PATCH 48/98] fix: try the next mirror when downloading from one has
 failed

---
 src/python/location/downloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index c4023dd..6076e9f 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -17,6 +17,7 @@
 ###############################################################################
 
 import gzip
+import http.client
 import logging
 import lzma
 import os
@@ -152,7 +153,7 @@ class Downloader(object):
 					t.flush()
 
 				# Catch decompression errors
-				except lzma.LZMAError as e:
+				except (lzma.LZMAError, EOFError) as e:
 					log.warning("Could not decompress downloaded file: %s" % e)
 					continue
 
@@ -165,6 +166,10 @@ class Downloader(object):
 					else:
 						log.warning("%s reported: %s" % (mirror, e))
 
+				# Catch any connection problems
+				except (OSError, http.client.HTTPException) as e:
+					log.warning("Could not download from %s: %s" % (mirror, e))
+
 				else:
 					# Check if the downloaded database is recent
 					if not self._check_database(t, public_key, timestamp):
-- 
2.43.0


From 4a4e049a6236cfcc58c348dc2050fc4060f3e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:55 +0000
Subject: [PATCH 49/98] fix: try the next mirror when the downloaded database
 cannot be opened

---
 src/python/location/downloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 6076e9f..297630b 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -194,7 +194,11 @@ class Downloader(object):
 		"""
 		log.debug("Opening downloaded database at %s" % f.name)
 
-		db = Database(f.name)
+		try:
+			db = Database(f.name)
+		except OSError as e:
+			log.error("Could not open database: %s" % e)
+			return False
 
 		# Database is not recent
 		if timestamp and db.created_at < timestamp:
-- 
2.43.0


From 790db229203af5460ba7b50505bf283056778863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:10 +0000
Subject: [PATCH 50/98] fix: location: Print the country code if the name of
 the country is unknown

---
 src/scripts/location.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index b34cc91..3914078 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -292,7 +292,7 @@ class CLI(object):
 
 				print(format % (
 					_("Country"),
-					country.name if country else network.country_code),
+					country.name if country and country.name else network.country_code),
 				)
 
 			# Print AS information
-- 
2.43.0


From 8a2c43384278c813d5aa8f467ca58a3abf967dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:39 +0000
Subject: [PATCH 51/98] fix: location: List countries that do not have a name
 or continent

---
 src/scripts/location.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 3914078..2136f03 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -499,10 +499,10 @@ class CLI(object):
 			]
 
 			if ns.show_continent:
-				line.append(country.continent_code)
+				line.append(country.continent_code or "")
 
 			if ns.show_name:
-				line.append(country.name)
+				line.append(country.name or "")
 
 			# Format the output
 			line = " ".join(line)
-- 
2.43.0


From 836a003a508ef4f27a1200285b433df5b4a3a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:05 +0000
Subject: [PATCH 52/98] fix: location: Do not end in a traceback when the
 database cannot be opened

---
 src/scripts/location.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 2136f03..a30058e 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -210,9 +210,9 @@ class CLI(object):
 		# Open database
 		try:
 			db = location.Database(args.database)
-		except FileNotFoundError as e:
+		except OSError as e:
 			# Allow continuing without a database
-			if args.func == self.handle_update:
+			if isinstance(e, FileNotFoundError) and args.func == self.handle_update:
 				db = None
 
 			else:
-- 
2.43.0


From 8a90331678bd26eef49b369a8c44bf1670a73fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:11 +0000
Subject: [PATCH 53/98] fix: location: get-as: Continue after an ASN that is
 out of range

---
 src/scripts/location.in | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index a30058e..cfaf8b9 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -397,14 +397,14 @@ class CLI(object):
 		for asn in ns.asn:
 			try:
 				asn = int(asn)
-			except ValueError:
+
+				# Fetch AS from database
+				a = db.get_as(asn)
+			except (ValueError, OverflowError):
 				print(_("Invalid ASN: %s") % asn, file=sys.stderr)
 				ret = 1
 				continue
 
-			# Fetch AS from database
-			a = db.get_as(asn)
-
 			# Nothing found
 			if not a:
 				print(_("Could not find AS%s") % asn, file=sys.stderr)
-- 
2.43.0


From a40a13f143b72cd27e75c8973f59962e3a399497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:40 +0000
Subject: [PATCH 54/98] fix: importer: import all addresses of extended
 statistics

---
 src/scripts/location-importer.in | 54 ++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3e651b4..e2693ce 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -26,7 +26,6 @@ import io
 import ipaddress
 import json
 import logging
-import math
 import re
 import socket
 import sys
@@ -1553,37 +1552,44 @@ class CLI(object):
 			log.warning("Invalid prefix: %s" % prefix)
 			return
 
-		# Fix prefix length for IPv4
-		if type == "ipv4":
-			prefix = 32 - int(math.log(prefix, 2))
-
 		# Try to parse the address
 		try:
-			network = ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)
+			# IPv4 comes with the number of addresses which might not be a single network
+			if type == "ipv4":
+				address = ipaddress.IPv4Address(address)
+
+				networks = list(
+					ipaddress.summarize_address_range(address, address + (prefix - 1)),
+				)
+
+			# IPv6 comes with the prefix
+			else:
+				networks = [ipaddress.IPv6Network((address, prefix), strict=False)]
 		except ValueError:
 			log.warning("Invalid IP address: %s" % address)
 			return
 
-		if not self._check_parsed_network(network):
-			return
+		for network in networks:
+			if not self._check_parsed_network(network):
+				continue
 
-		self.db.execute("""
-			INSERT INTO
-				networks
-			(
-				network,
-				country,
-				original_countries,
-				source
-			)
-			VALUES
-			(
-				%s, %s, %s, %s
+			self.db.execute("""
+				INSERT INTO
+					networks
+				(
+					network,
+					country,
+					original_countries,
+					source
+				)
+				VALUES
+				(
+					%s, %s, %s, %s
+				)
+				ON CONFLICT (network)
+					DO UPDATE SET country = excluded.country
+				""", "%s" % network, country_code, [country_code], source_key,
 			)
-			ON CONFLICT (network)
-				DO UPDATE SET country = excluded.country
-			""", "%s" % network, country_code, [country_code], source_key,
-		)
 
 	async def handle_update_announcements(self, ns):
 		server = ns.server[0]
-- 
2.43.0


From 2df61c7c24809fd1af3faa7c08ddb7dcd68bab9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:56 +0000
Subject: [PATCH 55/98] fix: importer: skip malformed networks instead of the
 entire source

---
 src/scripts/location-importer.in | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index e2693ce..d8614ca 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1338,17 +1338,17 @@ class CLI(object):
 
 						# How many octets do we need to add?
 						# (LACNIC does not seem to have a /8 or greater assigned, so the following should suffice.)
-						if ldigits == 1:
-							start_address = start_address[0] + ".0.0/" + start_address[1]
-						elif ldigits == 2:
-							start_address = start_address[0] + ".0/" + start_address[1]
-						else:
-							log.warning("Could not recover IPv4 address from line in LACNIC DB format: %s" % line)
-							return
-
 						try:
+							if ldigits == 1:
+								start_address = start_address[0] + ".0.0/" + start_address[1]
+							elif ldigits == 2:
+								start_address = start_address[0] + ".0/" + start_address[1]
+							else:
+								log.warning("Could not recover IPv4 address from line in LACNIC DB format: %s" % line)
+								return
+
 							start_address = ipaddress.ip_network(start_address, strict=False)
-						except ValueError:
+						except (IndexError, ValueError):
 							log.warning("Could not parse line in LACNIC DB format: %s" % line)
 							return
 
@@ -1365,10 +1365,19 @@ class CLI(object):
 						log.warning("Could not parse line: %s" % line)
 						return
 
-				inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				# Convert the range to networks
+				try:
+					inetnum["inetnum"] = list(ipaddress.summarize_address_range(start_address, end_address))
+				except (TypeError, ValueError):
+					log.warning("Invalid range: %s" % line)
+					return
 
 			elif key == "inet6num":
-				inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				try:
+					inetnum[key] = [ipaddress.ip_network(val, strict=False)]
+				except ValueError:
+					log.warning("Could not parse line: %s" % line)
+					return
 
 			elif key == "country":
 				cc = val.upper()
-- 
2.43.0


From 821cee325552488e72ea244bb0871112669cd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:56 +0000
Subject: [PATCH 56/98] fix: importer: skip organisations without a name

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index d8614ca..9453920 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1493,8 +1493,8 @@ class CLI(object):
 			elif key == "org-name":
 				org[key] = val
 
-		# Skip empty objects
-		if not org:
+		# Skip incomplete objects
+		if not org.get("organisation") or org.get("org-name") is None:
 			return
 
 		self.db.execute("INSERT INTO _organizations(handle, name, source) \
-- 
2.43.0


From 416a6cdf5caf9b49bffadc75a470fcf383050464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:56 +0000
Subject: [PATCH 57/98] fix: importer: import public AS numbers only, but all
 of them

---
 src/scripts/location-importer.in | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9453920..bf297c5 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -913,7 +913,7 @@ class CLI(object):
 
 			# Create some temporary tables to store parsed data
 			self.db.execute("""
-				CREATE TEMPORARY TABLE _autnums(number integer NOT NULL,
+				CREATE TEMPORARY TABLE _autnums(number bigint NOT NULL,
 					organization text NOT NULL, source text NOT NULL) ON COMMIT DROP;
 				CREATE UNIQUE INDEX _autnums_number ON _autnums(number);
 
@@ -1285,6 +1285,10 @@ class CLI(object):
 		if not autnum or not "asn" in autnum:
 			return
 
+		# Skip any non-public or reserved ASNs
+		if not self._check_parsed_asn(int(autnum.get("asn"))):
+			return
+
 		# Insert a dummy organisation handle into our temporary organisations
 		# table in case the AS does not have an organisation handle set, but
 		# has a description (a quirk often observed in APNIC area), so we can
-- 
2.43.0


From 9d18ea50dadda33b189fdc15defc16306c5652bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:56 +0000
Subject: [PATCH 58/98] fix: importer: skip malformed AS numbers in the list of
 ARIN

---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index bf297c5..5d2d899 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1119,13 +1119,13 @@ class CLI(object):
 			# Cast to a number
 			try:
 				first_asn = int(first_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % first_asn)
 				continue
 
 			try:
 				last_asn = int(last_asn)
-			except TypeError as e:
+			except (TypeError, ValueError) as e:
 				log.warning("Could not parse ASN '%s'" % last_asn)
 				continue
 
-- 
2.43.0


From 71eeff46bb6c4e780fd174db007f5af3c4312679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:07 +0000
Subject: [PATCH 59/98] fix: importer: write networks of all AS numbers of 32
 bits

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 5d2d899..c39ce75 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -378,7 +378,7 @@ class CLI(object):
 				n
 			(
 				network               inet NOT NULL,
-				autnum                integer,
+				autnum                bigint,
 				country               text,
 				is_anonymous_proxy    boolean,
 				is_satellite_provider boolean,
-- 
2.43.0


From 7ad689d0c02cb3f7d069f2161200e877a32c11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 60/98] fix: importer: do not wait forever when Bird fails

---
 src/scripts/location-importer.in | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index c39ce75..c908477 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1753,7 +1753,11 @@ class CLI(object):
 
 		while True:
 			# Fill up the buffer
-			buffer += s.recv(4096)
+			data = s.recv(4096)
+			if not data:
+				raise ConnectionError("Bird closed the connection unexpectedly")
+
+			buffer += data
 
 			while True:
 				# Search for the next newline
@@ -1783,6 +1787,14 @@ class CLI(object):
 					elif code == 1:
 						continue
 
+					# The network does not exist (any more)
+					elif code == 8001:
+						return
+
+					# Raise an exception on any other errors
+					elif code >= 8000:
+						raise RuntimeError("Bird responded: %s %s" % (code, line.decode().strip()))
+
 				# Otherwise return the line
 				yield line
 
-- 
2.43.0


From 36cc6e529dc26803e5d74fa6914ad775db29d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 61/98] fix: importer: ignore alternative routes when reading
 announcements

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index c908477..cab7f31 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1670,7 +1670,7 @@ class CLI(object):
 
 	async def _handle_update_announcements_from_bird(self, server):
 		# Pre-compile the regular expression for faster searching
-		route = re.compile(b"^\s(.+?)\s+.+?\[(?:AS(.*?))?.\]$")
+		route = re.compile(b"^\s(\S+)\s+.+?\[(?:AS(.*?))?.\]$")
 
 		log.info("Requesting routing table from Bird (%s)" % server)
 
-- 
2.43.0


From 7889691c8682db595edad25dce883ca42aa9b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 62/98] fix: importer: skip invalid prefixes of AWS

---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index cab7f31..dcd28d6 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2312,7 +2312,7 @@ class CLI(object):
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(network)
-			except ValuleError as e:
+			except ValueError as e:
 				log.warning("%s: Unable to parse prefix %s" % (name, network))
 				continue
 
-- 
2.43.0


From 414cd4d2bc1f962db702d0f17f4ff0a9c04c0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 63/98] fix: importer: keep the DROP lists if nothing could be
 imported

---
 src/scripts/location-importer.in | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index dcd28d6..9f62768 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2391,9 +2391,6 @@ class CLI(object):
 			# Strip any excess whitespace
 			line = line.strip()
 
-			# Increment line counter
-			lines += 1
-
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(line)
@@ -2406,6 +2403,9 @@ class CLI(object):
 				log.warning("%s: Skipping bogus network: %s" % (name, network))
 				continue
 
+			# Increment line counter
+			lines += 1
+
 			# Insert into the database
 			self.db.execute("""
 				INSERT INTO
-- 
2.43.0


From 88a1bb2590682ec6e5c78380afc0daddb8c8ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 64/98] fix: importer: update all other Geofeeds when one
 cannot be downloaded

---
 src/scripts/location-importer.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9f62768..093b3d2 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -30,6 +30,7 @@ import re
 import socket
 import sys
 import urllib.error
+import zlib
 
 # Load our location module
 import location
@@ -1905,6 +1906,9 @@ class CLI(object):
 						timeout=10,
 					)
 
+					# Read everything before removing any previous data
+					lines = f.readlines()
+
 					# Remove any previous data
 					self.db.execute("DELETE FROM geofeed_networks \
 						WHERE geofeed_id = %s", geofeed.id)
@@ -1913,7 +1917,7 @@ class CLI(object):
 
 					# Read the output line by line
 					with self.db.pipeline():
-						for line in f:
+						for line in lines:
 							lineno += 1
 
 							try:
@@ -2004,7 +2008,7 @@ class CLI(object):
 							WHERE geofeed_id = %s", geofeed.id)
 
 				# Catch any other errors and connection timeouts
-				except (http.client.InvalidURL, urllib.request.URLError, TimeoutError) as e:
+				except (http.client.HTTPException, OSError, EOFError, UnicodeError, zlib.error) as e:
 					log.debug("Could not fetch URL %s: %s" % (geofeed.url, e))
 
 					self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
-- 
2.43.0


From 832abfde26f0f91f5337417e6b8ab08b4c4a3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:47 +0000
Subject: [PATCH 65/98] fix: importer: do not import bogus networks from
 Geofeeds

---
 src/scripts/location-importer.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 093b3d2..1deaf4b 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1962,6 +1962,10 @@ class CLI(object):
 								log.debug("Could not parse network: %s" % network)
 								continue
 
+							# Sanitize parsed networks...
+							if not self._check_parsed_network(network):
+								continue
+
 							# Strip any excess whitespace from country codes
 							country = country.strip()
 
-- 
2.43.0


From 3f521cc6966814a2453548e558e03ff0bdc2ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:41 +0000
Subject: [PATCH 66/98] fix: tools: copy countries that do not have a continent

---
 tools/copy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/copy.py b/tools/copy.py
index 39129c0..8ef73c4 100644
--- a/tools/copy.py
+++ b/tools/copy.py
@@ -45,14 +45,16 @@ def copy_all(db, writer):
 	# Copy all ASes
 	for old in db.ases:
 		new = writer.add_as(old.number)
-		new.name = old.name
+		if old.name:
+			new.name = old.name
 
 	# Copy all networks
 	for old in db.networks:
 		new = writer.add_network("%s" % old)
 
 		# Copy country code
-		new.country_code = old.country_code
+		if old.country_code:
+			new.country_code = old.country_code
 
 		# Copy ASN
 		if old.asn:
@@ -68,10 +70,12 @@ def copy_all(db, writer):
 		new = writer.add_country(old.code)
 
 		# Copy continent code
-		new.continent_code = old.continent_code
+		if old.continent_code:
+			new.continent_code = old.continent_code
 
 		# Copy name
-		new.name = old.name
+		if old.name:
+			new.name = old.name
 
 def main():
 	"""
-- 
2.43.0


From f4b251cbf8a04174ec4ee7ed9552325277792de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:02 +0000
Subject: [PATCH 67/98] fix: perl: close databases when they are not being used
 any more

The references that init() returned were not blessed, so that DESTROY() was
never called and databases were never closed. Anything else that was a
reference was taken for a database.
---
 src/perl/lib/Location.pm |  5 +++++
 src/perl/typemap         | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/perl/lib/Location.pm b/src/perl/lib/Location.pm
index 2782d53..0c004ab 100644
--- a/src/perl/lib/Location.pm
+++ b/src/perl/lib/Location.pm
@@ -28,6 +28,11 @@ XSLoader::load('Location', $VERSION);
 
 # Preloaded methods go here.
 
+# Databases must not be destroyed once more by every thread that is created
+sub CLONE_SKIP {
+	return 1;
+}
+
 1;
 __END__
 # Below is stub documentation for your module. You'd better edit it!
diff --git a/src/perl/typemap b/src/perl/typemap
index c53fb53..3c8271c 100644
--- a/src/perl/typemap
+++ b/src/perl/typemap
@@ -1,2 +1,14 @@
 TYPEMAP
-struct loc_database * T_PTRREF
+struct loc_database * T_LOC_DATABASE
+
+INPUT
+T_LOC_DATABASE
+	if (SvROK($arg) && sv_derived_from($arg, \"Location\")) {
+		IV tmp = SvIV((SV*)SvRV($arg));
+		$var = INT2PTR($type, tmp);
+	} else
+		croak(\"%s: %s is not a database\", ${$ALIAS?\q[GvNAME(CvGV(cv))]:\qq[\"$pname\"]}, \"$var\");
+
+OUTPUT
+T_LOC_DATABASE
+	sv_setref_pv($arg, \"Location\", (void*)$var);
-- 
2.43.0


From f69b2450087137e7c31c25dba6b33bff9671375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:07 +0000
Subject: [PATCH 68/98] fix: network-tree: do not crash or leak when running
 out of memory

Nodes that could not be created were dereferenced, when adding networks as
well as when releasing a tree without a root.
---
 src/network-tree.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 8b9c21e..4b4fc8d 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -105,6 +105,8 @@ static struct loc_network_tree_node* loc_network_tree_get_path(struct loc_networ
 	for (unsigned int i = 0; i < prefix; i++) {
 		// Check if the ith bit is one or zero
 		node = loc_network_tree_get_node(node, loc_address_get_bit(address, i));
+		if (!node)
+			return NULL;
 	}
 
 	return node;
@@ -162,7 +164,8 @@ int loc_network_tree_walk(struct loc_network_tree* tree,
 static void loc_network_tree_free(struct loc_network_tree* tree) {
 	DEBUG(tree->ctx, "Releasing network tree at %p\n", tree);
 
-	loc_network_tree_node_unref(tree->root);
+	if (tree->root)
+		loc_network_tree_node_unref(tree->root);
 
 	loc_unref(tree->ctx);
 	free(tree);
@@ -554,7 +557,7 @@ static int loc_network_tree_dedup_step(struct loc_network* network, void* data)
 	// If network did not get removed, we push it into the stack
 	r = loc_network_list_push(ctx->stack, network);
 	if (r)
-		return r;
+		goto END;
 
 END:
 	if (n)
-- 
2.43.0


From 34c0d867db54c6a5aec51181fcebd465616a8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:15 +0000
Subject: [PATCH 69/98] fix: stringpool: keep all strings when the pool cannot
 be grown

All strings were lost and the pool believed to have memory that it had not.
---
 src/stringpool.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index db9803b..a3b936c 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -45,16 +45,18 @@ struct loc_stringpool {
 static int loc_stringpool_grow(struct loc_stringpool* pool, const size_t size) {
 	DEBUG(pool->ctx, "Growing string pool by %zu byte(s)\n", size);
 
-	// Increment size
-	pool->size += size;
-
 	// Reallocate blocks
-	pool->blocks = realloc(pool->blocks, pool->size);
-	if (!pool->blocks) {
+	char* blocks = realloc(pool->blocks, pool->size + size);
+	if (!blocks) {
 		ERROR(pool->ctx, "Could not grow string pool: %m\n");
 		return 1;
 	}
 
+	pool->blocks = blocks;
+
+	// Increment size
+	pool->size += size;
+
 	// Update data pointer
 	pool->data = pool->blocks;
 
-- 
2.43.0


From e13b5759ca7f6ec2876410888691a9804fe49cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:23 +0000
Subject: [PATCH 70/98] fix: writer: do not leak ASes and countries that could
 not be added

---
 src/writer.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 9759735..6bd6a43 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -245,7 +245,13 @@ LOC_EXPORT int loc_writer_add_as(struct loc_writer* writer, struct loc_as** as,
 		return r;
 
 	// Append it to the list
-	return loc_as_list_append(writer->as_list, *as);
+	r = loc_as_list_append(writer->as_list, *as);
+	if (r) {
+		loc_as_unref(*as);
+		*as = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_network** network, const char* string) {
@@ -273,7 +279,13 @@ LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_coun
 		return r;
 
 	// Append it to the list
-	return loc_country_list_append(writer->country_list, *country);
+	r = loc_country_list_append(writer->country_list, *country);
+	if (r) {
+		loc_country_unref(*country);
+		*country = NULL;
+	}
+
+	return r;
 }
 
 static void make_magic(struct loc_writer* writer, struct loc_database_magic* magic,
-- 
2.43.0


From 81ca38a8e10066baf5203b592daff2dff3f86b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:10 +0000
Subject: [PATCH 71/98] fix: as: report when there is no memory for the name

The name of an AS was silently dropped.
---
 src/as.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/as.c b/src/as.c
index 97c0a56..01c0fa0 100644
--- a/src/as.c
+++ b/src/as.c
@@ -90,13 +90,18 @@ LOC_EXPORT const char* loc_as_get_name(struct loc_as* as) {
 }
 
 LOC_EXPORT int loc_as_set_name(struct loc_as* as, const char* name) {
+	char* copy = NULL;
+
+	// Report error if we could not copy the string
+	if (name) {
+		copy = strdup(name);
+		if (!copy)
+			return 1;
+	}
+
 	if (as->name)
 		free(as->name);
-
-	if (name)
-		as->name = strdup(name);
-	else
-		as->name = NULL;
+	as->name = copy;
 
 	return 0;
 }
-- 
2.43.0


From 490a284621a4971178db051d05fa8065a82261a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 72/98] fix: writer: fail when a name could not be added to the
 string pool

The database was written with an invalid offset.
---
 src/as.c      |  3 +++
 src/country.c |  5 ++++-
 src/writer.c  | 10 ++++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/as.c b/src/as.c
index 01c0fa0..1813624 100644
--- a/src/as.c
+++ b/src/as.c
@@ -140,6 +140,9 @@ int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool,
 
 	// Save the name string in the string pool
 	off_t name = loc_stringpool_add(pool, as->name ? as->name : "");
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/country.c b/src/country.c
index 96bca9b..a67e26f 100644
--- a/src/country.c
+++ b/src/country.c
@@ -189,8 +189,11 @@ int loc_country_to_database_v1(struct loc_country* country,
 		loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
-	if (country->name)
+	if (country->name) {
 		name = loc_stringpool_add(pool, country->name);
+		if (name < 0)
+			return 1;
+	}
 
 	dbobj->name = htobe32(name);
 
diff --git a/src/writer.c b/src/writer.c
index 6bd6a43..5600303 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -363,11 +363,14 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 			return 1;
 
 		// Convert AS into database format
-		loc_as_to_database_v1(as, writer->pool, &block);
+		r = loc_as_to_database_v1(as, writer->pool, &block);
 
 		// Unref AS
 		loc_as_unref(as);
 
+		if (r)
+			return r;
+
 		// Write to disk
 		r = write_block(offset, &block, sizeof(block), f);
 		if (r)
@@ -620,11 +623,14 @@ static int loc_database_write_countries(struct loc_writer* writer,
 			return 1;
 
 		// Convert country into database format
-		loc_country_to_database_v1(country, writer->pool, &block);
+		r = loc_country_to_database_v1(country, writer->pool, &block);
 
 		// Unref country
 		loc_country_unref(country);
 
+		if (r)
+			return r;
+
 		// Write to disk
 		r = write_block(offset, &block, sizeof(block), f);
 		if (r)
-- 
2.43.0


From e16b66e94639181e96dfcfc137829881980a5c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:45 +0000
Subject: [PATCH 73/98] fix: writer: do not crash when running out of memory
 while writing

---
 src/writer.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index 5600303..cd4ea6f 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -502,6 +502,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_zero);
 			loc_network_tree_node_unref(node_zero);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -512,6 +517,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_one);
 			loc_network_tree_node_unref(node_one);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -660,6 +670,8 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx)
+		return 1;
 
 	// Initialise the context
 	r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
-- 
2.43.0


From f1791586261fb3548fc2a5cd6284a0c8341a33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:25 +0000
Subject: [PATCH 74/98] fix: database: report when a network could not be
 fetched

---
 src/database.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 4e26718..f5de669 100644
--- a/src/database.c
+++ b/src/database.c
@@ -880,7 +880,7 @@ static int __loc_database_lookup_handle_leaf(struct loc_database* db, const stru
 
 		loc_network_unref(*network);
 		*network = NULL;
-		return 1;
+		return 0;
 	}
 
 	// A network was found and the IP address matches
@@ -946,7 +946,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
 		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
+		if (r)
 			return r;
 	}
 
-- 
2.43.0


From 5bd034a2f9e9452e29a27f729ee223fded9fbd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:37 +0000
Subject: [PATCH 75/98] fix: database: do not crash when there is no memory to
 verify the signature

---
 src/database.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/database.c b/src/database.c
index f5de669..c701aa0 100644
--- a/src/database.c
+++ b/src/database.c
@@ -568,6 +568,12 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	int r = 0;
 
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(db->ctx, "Could not allocate a digest context\n");
+		r = 1;
+
+		goto CLEANUP;
+	}
 
 	// Initialise hash function
 	r = EVP_DigestVerifyInit(mdctx, NULL, NULL, NULL, pkey);
-- 
2.43.0


From e89fc992d13333f780e1b5409a78d1d15d41c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:46 +0000
Subject: [PATCH 76/98] fix: database: list the bogons next to the IPv4-mapped
 address space

---
 src/database.c       |  6 ++----
 src/libloc/address.h | 35 +++++++++++++++++++++++++++++++++++
 src/network-list.c   |  4 +---
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/database.c b/src/database.c
index c701aa0..0e3a7d4 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1643,7 +1643,7 @@ static int __loc_database_enumerator_next_bogon(
 		if (loc_address_cmp(gap_start, first_address) < 0) {
 			// It ends right before this network
 			gap_end = *first_address;
-			loc_address_decrement(&gap_end);
+			loc_address_previous(&gap_end, family);
 
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
@@ -1655,10 +1655,8 @@ static int __loc_database_enumerator_next_bogon(
 
 		// The gap now starts after this network
 		*gap_start = *last_address;
-		if (loc_address_all_ones(gap_start))
+		if (loc_address_next(gap_start, family))
 			*gap_finished = 1;
-		else
-			loc_address_increment(gap_start);
 
 		loc_network_unref(network);
 
diff --git a/src/libloc/address.h b/src/libloc/address.h
index 27508b7..d4bff9f 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -310,6 +310,41 @@ static inline void loc_address_decrement(struct in6_addr* address) {
 	}
 }
 
+/*
+	Moves to the next address of the same family
+
+	Returns non-zero if there is no such address.
+*/
+static inline int loc_address_next(struct in6_addr* address, int family) {
+	// IPv6 continues after the IPv4-mapped address space
+	if (family != AF_INET6 || !IN6_IS_ADDR_V4MAPPED(address)) {
+		if (loc_address_all_ones(address))
+			return 1;
+
+		loc_address_increment(address);
+	}
+
+	if (family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(address)) {
+		loc_address_reset(address, AF_INET6);
+		address->s6_addr[9] = 1;
+	}
+
+	return 0;
+}
+
+/*
+	Moves to the previous address of the same family
+*/
+static inline void loc_address_previous(struct in6_addr* address, int family) {
+	loc_address_decrement(address);
+
+	// IPv6 continues before the IPv4-mapped address space
+	if (family == AF_INET6 && IN6_IS_ADDR_V4MAPPED(address)) {
+		loc_address_reset_last(address, AF_INET);
+		address->s6_addr[11] = 0xfe;
+	}
+}
+
 static inline int loc_address_get_octet(const struct in6_addr* address, const unsigned int i) {
 	if (IN6_IS_ADDR_V4MAPPED(address)) {
 		if (i >= 4)
diff --git a/src/network-list.c b/src/network-list.c
index aee0054..772a725 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -387,10 +387,8 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		loc_network_unref(network);
 
 		// If we have reached the end of possible IP addresses, we stop
-		if (loc_address_all_ones(&start))
+		if (loc_address_next(&start, family1))
 			break;
-
-		loc_address_increment(&start);
 	}
 
 	return 0;
-- 
2.43.0


From fbeb0530ee429ccf432eb6a5fde36b6ced3bb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:17 +0000
Subject: [PATCH 77/98] fix: lists: do not need any memory to search for a
 country code or an AS number

---
 src/as-list.c      | 14 +++++---------
 src/country-list.c | 20 ++++++++------------
 2 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/as-list.c b/src/as-list.c
index 50805e7..e53e2da 100644
--- a/src/as-list.c
+++ b/src/as-list.c
@@ -152,16 +152,12 @@ LOC_EXPORT int loc_as_list_contains(
 
 LOC_EXPORT int loc_as_list_contains_number(
 		struct loc_as_list* list, uint32_t number) {
-	struct loc_as* as;
-
-	int r = loc_as_new(list->ctx, &as, number);
-	if (r)
-		return -1;
-
-	r = loc_as_list_contains(list, as);
-	loc_as_unref(as);
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (loc_as_get_number(list->elements[i]) == number)
+			return 1;
+	}
 
-	return r;
+	return 0;
 }
 
 static int __loc_as_cmp(const void* as1, const void* as2) {
diff --git a/src/country-list.c b/src/country-list.c
index 536fd9e..7b78171 100644
--- a/src/country-list.c
+++ b/src/country-list.c
@@ -16,6 +16,7 @@
 
 #include <errno.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <libloc/compat.h>
 #include <libloc/country.h>
@@ -150,21 +151,16 @@ LOC_EXPORT int loc_country_list_contains(
 
 LOC_EXPORT int loc_country_list_contains_code(
 		struct loc_country_list* list, const char* code) {
-	struct loc_country* country;
-
-	int r = loc_country_new(list->ctx, &country, code);
-	if (r) {
-		// Ignore invalid country codes which would never match
-		if (errno == EINVAL)
-			return 0;
+	// Ignore invalid country codes which would never match
+	if (!loc_country_code_is_valid(code))
+		return 0;
 
-		return r;
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (strcmp(loc_country_get_code(list->elements[i]), code) == 0)
+			return 1;
 	}
 
-	r = loc_country_list_contains(list, country);
-	loc_country_unref(country);
-
-	return r;
+	return 0;
 }
 
 static int __loc_country_cmp(const void* country1, const void* country2) {
-- 
2.43.0


From 0aef4b9cf337d39a7fd68eb6e02c326f0bee0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:34 +0000
Subject: [PATCH 78/98] fix: network: do not return an incomplete list of
 networks when there is no memory

---
 src/network.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/network.c b/src/network.c
index 06c1188..7f22427 100644
--- a/src/network.c
+++ b/src/network.c
@@ -559,7 +559,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 			if (loc_network_overlaps(subnet, subnet_to_check)) {
 				passed = 0;
 
-				__loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
+				r = __loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
+				if (r) {
+					loc_network_unref(subnet);
+					loc_network_unref(subnet_to_check);
+					goto ERROR;
+				}
 
 				loc_network_unref(subnet);
 				break;
@@ -583,6 +588,10 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 
 		if (passed) {
 			r = loc_network_list_push(subnets, subnet_to_check);
+			if (r) {
+				loc_network_unref(subnet_to_check);
+				goto ERROR;
+			}
 		}
 
 		loc_network_unref(subnet_to_check);
@@ -591,6 +600,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 	loc_network_list_unref(to_check);
 
 	return subnets;
+
+ERROR:
+	loc_network_list_unref(to_check);
+	loc_network_list_unref(subnets);
+
+	return NULL;
 }
 
 int loc_network_merge(struct loc_network** n,
-- 
2.43.0


From 66916f8ef791ecb4caa9fb45f4105d5102c3277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:33 +0000
Subject: [PATCH 79/98] fix: python: release what an object held when it is
 initialized again

---
 src/python/as.c       |  9 ++++++++-
 src/python/country.c  |  9 ++++++++-
 src/python/database.c | 27 +++++++++++++++++++++------
 src/python/network.c  |  9 ++++++++-
 4 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 30a66de..e7f223e 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -66,18 +66,25 @@ static void AS_dealloc(ASObject* self) {
 }
 
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
 	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return -1;
 
 	// Create the AS object
-	int r = loc_as_new(loc_ctx, &self->as, number);
+	int r = loc_as_new(loc_ctx, &as, number);
 	if (r) {
 		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
 	}
 
+	// Release the previous AS (if any)
+	if (self->as)
+		loc_as_unref(self->as);
+
+	self->as = as;
+
 	return 0;
 }
 
diff --git a/src/python/country.c b/src/python/country.c
index b57c477..917dd4e 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -45,13 +45,14 @@ static void Country_dealloc(CountryObject* self) {
 }
 
 static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_country* country = NULL;
 	const char* country_code = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &country_code))
 		return -1;
 
 	// Create the country object
-	int r = loc_country_new(loc_ctx, &self->country, country_code);
+	int r = loc_country_new(loc_ctx, &country, country_code);
 	if (r) {
 		switch (errno) {
 			case EINVAL:
@@ -66,6 +67,12 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 		return -1;
 	}
 
+	// Release the previous country (if any)
+	if (self->country)
+		loc_country_unref(self->country);
+
+	self->country = country;
+
 	return 0;
 }
 
diff --git a/src/python/database.c b/src/python/database.c
index 1837a22..797e0ba 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -46,34 +46,49 @@ static void Database_dealloc(DatabaseObject* self) {
 }
 
 static int Database_init(DatabaseObject* self, PyObject* args, PyObject* kwargs) {
-	const char* path = NULL;
+	struct loc_database* db = NULL;
+	const char* arg = NULL;
+	char* path = NULL;
 	FILE* f = NULL;
 
 	// Parse arguments
-	if (!PyArg_ParseTuple(args, "s", &path))
+	if (!PyArg_ParseTuple(args, "s", &arg))
 		return -1;
 
 	// Copy path
-	self->path = strdup(path);
-	if (!self->path)
+	path = strdup(arg);
+	if (!path)
 		goto ERROR;
 
 	// Open the file for reading
-	f = fopen(self->path, "r");
+	f = fopen(path, "r");
 	if (!f)
 		goto ERROR;
 
 	// Load the database
-	int r = loc_database_new(loc_ctx, &self->db, f);
+	int r = loc_database_new(loc_ctx, &db, f);
 	if (r)
 		goto ERROR;
 
 	fclose(f);
+
+	// Release the previous database (if any)
+	if (self->db)
+		loc_database_unref(self->db);
+
+	if (self->path)
+		free(self->path);
+
+	self->db = db;
+	self->path = path;
+
 	return 0;
 
 ERROR:
 	if (f)
 		fclose(f);
+	if (path)
+		free(path);
 
 	PyErr_SetFromErrno(PyExc_OSError);
 	return -1;
diff --git a/src/python/network.c b/src/python/network.c
index bfe21f5..8075e0e 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -68,18 +68,25 @@ static void Network_dealloc(NetworkObject* self) {
 }
 
 static int Network_init(NetworkObject* self, PyObject* args, PyObject* kwargs) {
+	struct loc_network* n = NULL;
 	const char* network = NULL;
 
 	if (!PyArg_ParseTuple(args, "s", &network))
 		return -1;
 
 	// Load the Network
-	int r = loc_network_new_from_string(loc_ctx, &self->network, network);
+	int r = loc_network_new_from_string(loc_ctx, &n, network);
 	if (r) {
 		PyErr_Format(PyExc_ValueError, "Invalid network: %s", network);
 		return -1;
 	}
 
+	// Release the previous network (if any)
+	if (self->network)
+		loc_network_unref(self->network);
+
+	self->network = n;
+
 	return 0;
 }
 
-- 
2.43.0


From cc79261d831c3bd94bc30d95b3ef7445112c6946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:44 +0000
Subject: [PATCH 80/98] fix: downloader: fail when a file was not retrieved
 entirely

---
 src/python/location/downloader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 297630b..e16d6b2 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -241,6 +241,11 @@ class Downloader(object):
 
 				t.write(buf)
 
+			# Fail if the connection was closed before everything was received
+			if getattr(f, "length", None):
+				raise urllib.error.ContentTooShortError(
+					"Retrieved only %s bytes from %s" % (t.tell(), url), None)
+
 		# Rewind the temporary file
 		t.seek(0)
 
-- 
2.43.0


From 7bc9756cc19beaf91605ab10bd17312b523cde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:47 +0000
Subject: [PATCH 81/98] fix: address: use a set of buffers for each thread

---
 src/address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/address.c b/src/address.c
index df4a31f..025a885 100644
--- a/src/address.c
+++ b/src/address.c
@@ -27,8 +27,8 @@
 #define LOC_ADDRESS_BUFFERS				6
 #define LOC_ADDRESS_BUFFER_LENGTH		INET6_ADDRSTRLEN
 
-static char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
-static int  __loc_address_buffer_idx = 0;
+static __thread char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
+static __thread int  __loc_address_buffer_idx = 0;
 
 static const char* __loc_address6_str(const struct in6_addr* address, char* buffer, size_t length) {
 	return inet_ntop(AF_INET6, address, buffer, length);
-- 
2.43.0


From 5cf158c13b2bba820e172ad8d6fcdfae6e31ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:52 +0000
Subject: [PATCH 82/98] fix: database: fail to verify if the file cannot be
 read

---
 src/database.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/database.c b/src/database.c
index 0e3a7d4..eac8f09 100644
--- a/src/database.c
+++ b/src/database.c
@@ -652,6 +652,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Error reading from file: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
-- 
2.43.0


From ca45c32739796908a8562969e0da0c6c789c19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:57 +0000
Subject: [PATCH 83/98] fix: libloc: call the function that was set with
 loc_set_log_fn

---
 src/libloc.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libloc.c b/src/libloc.c
index 5d1b87e..634ab87 100644
--- a/src/libloc.c
+++ b/src/libloc.c
@@ -38,6 +38,10 @@ struct loc_ctx {
 		// Callback
 		loc_log_callback callback;
 		void* data;
+
+		// Callback without any data
+		void (*fn)(struct loc_ctx* ctx, int priority, const char* file,
+			int line, const char* fn, const char* format, va_list args);
 	} log;
 };
 
@@ -58,6 +62,12 @@ static void log_stderr(struct loc_ctx* ctx, void* data,
 	vfprintf(stderr, format, args);
 }
 
+static void log_fn_callback(struct loc_ctx* ctx, void* data,
+		int priority, const char* file, int line, const char* fn,
+		const char* format, va_list args) {
+	ctx->log.fn(ctx, priority, file, line, fn, format, args);
+}
+
 static int log_priority(const char* priority) {
 	char *endptr;
 
@@ -125,7 +135,11 @@ LOC_EXPORT void loc_set_log_callback(struct loc_ctx* ctx, loc_log_callback callb
 LOC_EXPORT void loc_set_log_fn(struct loc_ctx* ctx,
 		void (*log_fn)(struct loc_ctx* ctx, int priority, const char* file,
 		int line, const char* fn, const char* format, va_list args)) {
-	//ctx->log_fn = log_fn;
+	ctx->log.fn = log_fn;
+
+	// Go back to logging to stderr if there is no function
+	loc_set_log_callback(ctx, (log_fn) ? log_fn_callback : log_stderr, NULL);
+
 	INFO(ctx, "custom logging function %p registered\n", log_fn);
 }
 
-- 
2.43.0


From e7a005e082bb5ed75f6d60798e9400223403fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:33 +0000
Subject: [PATCH 84/98] fix: lua: call the log callback safely from wherever it
 was set

---
 src/lua/location.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/lua/location.c b/src/lua/location.c
index 1c94889..049215d 100644
--- a/src/lua/location.c
+++ b/src/lua/location.c
@@ -34,7 +34,7 @@
 
 struct loc_ctx* ctx = NULL;
 
-static int log_callback_ref = 0;
+static int log_callback_ref = LUA_NOREF;
 
 static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const char* file,
 		int line, const char* fn, const char* format, va_list args) {
@@ -48,6 +48,12 @@ static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const c
 	if (r < 0)
 		return;
 
+	// Make sure that we have some space on the stack
+	if (!lua_checkstack(L, 3)) {
+		free(message);
+		return;
+	}
+
 	// Fetch the Lua callback function
 	lua_rawgeti(L, LUA_REGISTRYINDEX, log_callback_ref);
 
@@ -57,19 +63,31 @@ static void log_callback(struct loc_ctx* _ctx, void* data, int priority, const c
 	// Pass the message as second argument
 	lua_pushstring(L, message);
 
-	// Call the function
-	lua_call(L, 2, 0);
-
 	free(message);
+
+	// Call the function, but do not let any errors escape through the library
+	r = lua_pcall(L, 2, 0, 0);
+	if (r)
+		lua_pop(L, 1);
 }
 
 static int set_log_callback(lua_State* L) {
 	// Check if we have received a function
 	luaL_checktype(L, 1, LUA_TFUNCTION);
 
+	// Drop the previous callback function
+	luaL_unref(L, LUA_REGISTRYINDEX, log_callback_ref);
+
 	// Store a reference to the callback function
+	lua_pushvalue(L, 1);
 	log_callback_ref = luaL_ref(L, LUA_REGISTRYINDEX);
 
+#ifdef LUA_RIDX_MAINTHREAD
+	// The callback must not depend on the coroutine it was set in
+	lua_rawgeti(L, LUA_REGISTRYINDEX, LUA_RIDX_MAINTHREAD);
+	L = lua_tothread(L, -1);
+#endif
+
 	// Register our callback helper
 	if (ctx)
 		loc_set_log_callback(ctx, log_callback, L);
@@ -108,6 +126,9 @@ int luaopen_location(lua_State* L) {
 		return luaL_error(L,
 			"Could not initialize location context: %s\n", strerror(errno));
 
+	// The new context does not have a callback, yet
+	log_callback_ref = LUA_NOREF;
+
 	// Register functions
 	luaL_newlib(L, location_functions);
 
-- 
2.43.0


From 97c88a690babea77d716ea82eb897a1985446bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:17 +0000
Subject: [PATCH 85/98] fix: downloader: send requests through the proxy of
 their protocol

All proxies were set for every request, in turn. As soon as both http_proxy
and https_proxy were set, or the only one was for the other protocol, requests
went to the wrong one, and HTTPS requests were sent in plain text. urllib
picks the right proxy from the environment itself.
---
 src/python/location/downloader.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index e16d6b2..415e79e 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -50,19 +50,8 @@ class Downloader(object):
 		# Randomize mirrors
 		random.shuffle(self.mirrors)
 
-		# Get proxies from environment
-		self.proxies = self._get_proxies()
-
-	def _get_proxies(self):
-		proxies = {}
-
-		for protocol in ("https", "http"):
-			proxy = os.environ.get("%s_proxy" % protocol, None)
-
-			if proxy:
-				proxies[protocol] = proxy
-
-		return proxies
+		# This uses the proxies from the environment
+		self.opener = urllib.request.build_opener()
 
 	def _make_request(self, url, baseurl=None, headers={}):
 		if baseurl:
@@ -79,10 +68,6 @@ class Downloader(object):
 		for header in headers:
 			req.add_header(header, headers[header])
 
-		# Set proxies
-		for protocol in self.proxies:
-			req.set_proxy(self.proxies[protocol], protocol)
-
 		return req
 
 	def _send_request(self, req, **kwargs):
@@ -94,7 +79,7 @@ class Downloader(object):
 			log.debug("		%s: %s" % (k, v))
 
 		try:
-			res = urllib.request.urlopen(req, **kwargs)
+			res = self.opener.open(req, **kwargs)
 
 		except urllib.error.HTTPError as e:
 			# Log response headers
-- 
2.43.0


From 4e205a5e87f8abe69b97c13479d80d90061c8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:10 +0000
Subject: [PATCH 86/98] fix: export: do not seek in streams that ipset sets are
 written to

When standard output was appended to a file, the header which is written
again in the end went to the end of the file, and flushed the set.
---
 src/python/location/export.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 2d205ca..028884f 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -50,6 +50,9 @@ class OutputWriter(object):
 		# Tag
 		self.tag = self._make_tag()
 
+		# Is this file used by somebody else, too?
+		self.shared = bool(f)
+
 		# Open output file
 		if f:
 			self.f = f
@@ -147,6 +150,12 @@ class IpsetOutputWriter(OutputWriter):
 		# Count all networks
 		self.networks = 0
 
+		# We can only go back to the header in a file of our own. Anything that has been
+		# passed to us could be a pipe, or have other content, or be appended to.
+		self.output = None
+		if self.shared:
+			self.output, self.f = self.f, io.StringIO()
+
 		# Check that family is being set
 		if not self.family:
 			raise ValueError("%s requires family being set" % self.__class__.__name__)
@@ -184,16 +193,16 @@ class IpsetOutputWriter(OutputWriter):
 
 	def _write_footer(self):
 		# Jump back to the beginning of the file
-		try:
-			self.f.seek(0)
-
-		# If the output stream isn't seekable, we won't try writing the header again
-		except io.UnsupportedOperation:
-			return
+		self.f.seek(0)
 
 		# Rewrite the header with better configuration
 		self._write_header()
 
+		# Copy everything to where it belongs
+		if self.output:
+			self.output.write(self.f.getvalue())
+			self.f = self.output
+
 
 class NftablesOutputWriter(OutputWriter):
 	"""
-- 
2.43.0


From 113e33552cb1bfdfdc13d946c9aa14cb73e1d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 87/98] fix: downloader: give up on servers that stop sending

There was no timeout: one mirror or source that accepted a connection and did
not answer kept an update or an import from ever ending.
---
 src/python/location/downloader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 415e79e..b5df0d8 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -36,6 +36,9 @@ MIRRORS = (
 	"https://location.ipfire.org/databases/",
 )
 
+# Give up on servers that have not sent anything for this long (in seconds)
+TIMEOUT = 60
+
 # Initialise logging
 log = logging.getLogger("location.downloader")
 log.propagate = 1
@@ -120,7 +123,7 @@ class Downloader(object):
 				t.truncate()
 
 				try:
-					with self._send_request(req) as res:
+					with self._send_request(req, timeout=TIMEOUT) as res:
 						decompressor = lzma.LZMADecompressor()
 
 						# Read all data
@@ -201,7 +204,7 @@ class Downloader(object):
 
 		return True
 
-	def retrieve(self, url, timeout=None, **kwargs):
+	def retrieve(self, url, timeout=TIMEOUT, **kwargs):
 		"""
 			This method will fetch the content at the given URL
 			and will return a file-object to a temporary file.
-- 
2.43.0


From 1eea1af159c0ff608a655a92820471258e733d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:12 +0000
Subject: [PATCH 88/98] fix: downloader: remove the temporary file whenever a
 download fails

If the disk was full, or the mode of the file could not be changed, the
temporary file was left behind.
---
 src/python/location/downloader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index b5df0d8..562c219 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -112,6 +112,16 @@ class Downloader(object):
 			)
 
 		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
+
+		try:
+			return self._try_mirrors(t, url, headers, public_key, timestamp)
+
+		# Delete the temporary file after unsuccessful downloads
+		except:
+			os.unlink(t.name)
+			raise
+
+	def _try_mirrors(self, t, url, headers, public_key, timestamp=None):
 		with t:
 			# Try all mirrors
 			for mirror in self.mirrors:
@@ -170,9 +180,6 @@ class Downloader(object):
 					# Return temporary file
 					return t
 
-		# Delete the temporary file after unsuccessful downloads
-		os.unlink(t.name)
-
 		raise FileNotFoundError(url)
 
 	def _check_database(self, f, public_key, timestamp=None):
-- 
2.43.0


From c0cb1c668a1e6dddb2d3fa040d3b99e1220156b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:17 +0000
Subject: [PATCH 89/98] fix: location: never overwrite the installed database
 in place

If renaming the downloaded file failed, shutil.move() copied its content
over the installed database, which was truncated when the disk was full
(and for anybody who was using it at the time).
---
 src/scripts/location.in | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index cfaf8b9..a62f2b7 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -23,7 +23,6 @@ import ipaddress
 import logging
 import os
 import re
-import shutil
 import socket
 import sys
 import time
@@ -468,8 +467,12 @@ class CLI(object):
 		if not t:
 			return 3
 
-		# Move temporary file to destination
-		shutil.move(t.name, ns.database)
+		# Replace the database with the temporary file (which is in the same directory)
+		try:
+			os.rename(t.name, ns.database)
+		except:
+			os.unlink(t.name)
+			raise
 
 		return 0
 
-- 
2.43.0


From d747f943523907f476cdc7aaac65b5664622ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:22 +0000
Subject: [PATCH 90/98] fix: location: report output that could not be written

A dump whose last part could not be written was reported as a success,
because files that are flushed by the interpreter when it exits cannot
change the exit status any more.
---
 src/scripts/location.in | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index a62f2b7..16757a4 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -232,6 +232,9 @@ class CLI(object):
 		try:
 			ret = args.func(db, args)
 
+			# Make sure that everything has been printed
+			sys.stdout.flush()
+
 		# Catch invalid inputs
 		except ValueError as e:
 			sys.stderr.write("%s\n" % e)
@@ -387,6 +390,9 @@ class CLI(object):
 				if n.has_flag(flag):
 					f.write(format % (flags[flag], "yes"))
 
+		# Make sure that everything has been written
+		f.flush()
+
 	def handle_get_as(self, db, ns):
 		"""
 			Gets information about Autonomous Systems
-- 
2.43.0


From 5c94eba9f78efc4f765c68745837285525085524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:11 +0000
Subject: [PATCH 91/98] fix: writer: Fail if data was lost when the stream was
 flushed

---
 src/writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/writer.c b/src/writer.c
index cd4ea6f..29f2434 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -800,6 +800,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	int r;
 	off_t offset = 0;
 
+	// Forget about any errors that happened before we started
+	clearerr(f);
+
 	// Start writing at the beginning of the file
 	r = fseek(f, 0, SEEK_SET);
 	if (r)
@@ -907,5 +910,11 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 	}
 
+	// fwrite() does not report any data that got lost when the buffer was flushed
+	if (ferror(f)) {
+		ERROR(writer->ctx, "Could not write all of the database\n");
+		return 1;
+	}
+
 	return 0;
 }
-- 
2.43.0


From 61e1a0dbc401dd72e7c7de7660a512ac6f84f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:41 +0000
Subject: [PATCH 92/98] fix: country: Keep the name if there is no memory for a
 new one

---
 src/country.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/country.c b/src/country.c
index a67e26f..ab739a8 100644
--- a/src/country.c
+++ b/src/country.c
@@ -123,18 +123,19 @@ LOC_EXPORT const char* loc_country_get_name(struct loc_country* country) {
 }
 
 LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* name) {
-	if (country->name)
-		free(country->name);
-	country->name = NULL;
+	char* copy = NULL;
 
+	// Report error if we could not copy the string
 	if (name) {
-		country->name = strdup(name);
-
-		// Report error if we could not copy the string
-		if (!country->name)
+		copy = strdup(name);
+		if (!copy)
 			return 1;
 	}
 
+	if (country->name)
+		free(country->name);
+	country->name = copy;
+
 	return 0;
 }
 
-- 
2.43.0


From c747137884b0d43d63a155cfcfeecd0620942fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:46 +0000
Subject: [PATCH 93/98] fix: database: Keep the search string if there is no
 memory for a new one

---
 src/database.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/database.c b/src/database.c
index eac8f09..aa31c80 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1194,18 +1194,20 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
-	// Free any previous string
-	if (enumerator->string)
-		free(enumerator->string);
-
-	enumerator->string = strdup(string);
-	if (!enumerator->string)
+	char* s = strdup(string);
+	if (!s)
 		return 1;
 
 	// Make the string lowercase
-	for (char *p = enumerator->string; *p; p++)
+	for (char *p = s; *p; p++)
 		*p = tolower(*p);
 
+	// Free any previous string
+	if (enumerator->string)
+		free(enumerator->string);
+
+	enumerator->string = s;
+
 	return 0;
 }
 
-- 
2.43.0


From 6d78d78b7432a4f609166b93e648d444a9527ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 94/98] fix: database: Do not leave networks uninitialized when
 enumerating something else

---
 src/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/database.c b/src/database.c
index aa31c80..2c1e7e0 100644
--- a/src/database.c
+++ b/src/database.c
@@ -1718,6 +1718,8 @@ FINISH:
 
 LOC_EXPORT int loc_database_enumerator_next_network(
 		struct loc_database_enumerator* enumerator, struct loc_network** network) {
+	*network = NULL;
+
 	switch (enumerator->mode) {
 		case LOC_DB_ENUMERATE_NETWORKS:
 			// Flatten output?
-- 
2.43.0


From cba3516af2bed90ef570c2706d87c8238d26b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:56 +0000
Subject: [PATCH 95/98] fix: perl: Release the enumerator if a country could
 not be read

---
 src/perl/Location.xs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index eb8f7f0..3ab4bb8 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -135,6 +135,7 @@ database_countries(db)
 		struct loc_country* country;
 		err = loc_database_enumerator_next_country(enumerator, &country);
 		if (err) {
+			loc_database_enumerator_unref(enumerator);
 			croak("Could not enumerate next country\n");
 		}
 
@@ -151,6 +152,7 @@ database_countries(db)
 			// Enumerate next item.
 			err = loc_database_enumerator_next_country(enumerator, &country);
 			if (err) {
+				loc_database_enumerator_unref(enumerator);
 				croak("Could not enumerate next country\n");
 			}
 		}
-- 
2.43.0


From fc5a013d077b7493db8e93ecdc9f4cacf0492827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:06 +0000
Subject: [PATCH 96/98] fix: Do not say that an AS does not exist when it could
 not be read

Where memory could not be allocated, loc_database_get_as() returned 1, which
stands for nothing having been found. Python returned None.
---
 src/database.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 2c1e7e0..28dd7c2 100644
--- a/src/database.c
+++ b/src/database.c
@@ -798,8 +798,10 @@ LOC_EXPORT int loc_database_get_as(struct loc_database* db, struct loc_as** as,
 
 		// Fetch AS in the middle between lo and hi
 		int r = loc_database_fetch_as(db, as, i);
-		if (r)
-			return r;
+		if (r) {
+			// One stands for nothing having been found
+			return (r < 0) ? r : -1;
+		}
 
 		// Check if this is a match
 		uint32_t as_number = loc_as_get_number(*as);
-- 
2.43.0


From 06ebb4ff9db63e795020427606d6a3809c8a1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:10 +0000
Subject: [PATCH 97/98] fix: python: Raise an exception if a network could not
 be excluded

Network.exclude() crashed when the list could not be allocated.
---
 src/python/network.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/network.c b/src/python/network.c
index 8075e0e..2bd295e 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -205,6 +205,10 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 		return NULL;
 
 	struct loc_network_list* list = loc_network_exclude(self->network, other->network);
+	if (!list) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	// Convert to Python objects
 	PyObject* obj = PyList_FromNetworkList(list);
-- 
2.43.0


From 37b153dcbc2f48be17fe9597eb436c4d845ea953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:14 +0000
Subject: [PATCH 98/98] fix: python: Do not search for all ASes if the search
 string was not set

Database.search_as() returned all ASes when there was no memory for the string.
---
 src/python/database.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/database.c b/src/python/database.c
index 797e0ba..c59b494 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -309,7 +309,12 @@ static PyObject* Database_search_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Search string we are searching for
-	loc_database_enumerator_set_string(enumerator, string);
+	r = loc_database_enumerator_set_string(enumerator, string);
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		loc_database_enumerator_unref(enumerator);
+		return NULL;
+	}
 
 	PyObject* obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
 	loc_database_enumerator_unref(enumerator);
-- 
2.43.0

