From a4f06e30f38bc305c853c9c297ea442caedd36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 01/14] fix: to_bool/from_bool in reverse mode index the last
 element, not one past it

---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From 144603dfbb602a3cc0cf3d6b3aa06f2d1d84f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 02/14] fix: MITCCRH renews its keys when fewer than K unused
 ones are left

---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From db3c1464b7fe8bb952e6e0328ff64e41179418ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 03/14] fix: PRP constructed from key bytes sets the key
 instead of leaving it uninitialised

---
 emp-tool/utils/prp.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emp-tool/utils/prp.h b/emp-tool/utils/prp.h
index 08db0da..0ee4d5f 100644
--- a/emp-tool/utils/prp.h
+++ b/emp-tool/utils/prp.h
@@ -18,6 +18,8 @@ class PRP { public:
 	PRP(const char * key = nullptr) {
 		if(key == nullptr)
 			aes_set_key(zero_block);
+		else
+			aes_set_key(_mm_loadu_si128((const block *)key));
 	}
 
 	PRP(const block& key) {
-- 
2.43.0


From 5209fd723715da914142117ac64c366eca73ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 04/14] fix: PRG::reseed discards words buffered from the
 previous stream

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..5e64ca7 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 2f817b6dad3bce8e18e460898af1df367468a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 05/14] fix: PRG::random_data_unaligned consumes the same
 keystream whatever the alignment

---
 emp-tool/utils/prg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5e64ca7..aafbfb3 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -104,7 +104,8 @@ class PRG { public:
             }
         } else {
             block tmp[2];
-            random_block(tmp, 2);
+            // one block for every 16 bytes, as above: the stream must not depend on alignment
+            random_block(tmp, (nbytes + sizeof(block) - 1) / sizeof(block));
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From 6985bee5f27e0a415a7eff81b5c87e5f5e7cfd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:12 +0000
Subject: [PATCH 06/14] fix: privacy-free evaluation uses the whole received
 block, not its low half twice

---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From e28218e16179356cb3e0a867394da449a9bee013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:30 +0000
Subject: [PATCH 07/14] fix: Hash::put hashes buffered bytes before a piece as
 large as the buffer

---
 emp-tool/utils/hash.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..2756924 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,13 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			if(size > 0) {
+				EVP_DigestUpdate(mdctx, buffer, size);
+				size = 0;
+			}
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From 6c16a483ff7b28961fe0c3a13175f1fa979d6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:22 +0000
Subject: [PATCH 08/14] fix: NetIO keeps bytes that arrived but were not read
 yet when the endpoint sends

---
 emp-tool/io/net_io_channel.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/emp-tool/io/net_io_channel.h b/emp-tool/io/net_io_channel.h
index 6566564..cbcbf32 100644
--- a/emp-tool/io/net_io_channel.h
+++ b/emp-tool/io/net_io_channel.h
@@ -25,6 +25,10 @@ class NetIO: public IOChannel<NetIO> { public:
 	int consocket = -1;
 	FILE * stream = nullptr;
 	char * buffer = nullptr;
+	// Received bytes have a stream of their own: writing to a stream that
+	// still holds unread input would drop that input.
+	FILE * recv_stream = nullptr;
+	char * recv_buffer = nullptr;
 	bool has_sent = false;
 	string addr;
 	int port;
@@ -82,6 +86,10 @@ class NetIO: public IOChannel<NetIO> { public:
 		buffer = new char[NETWORK_BUFFER_SIZE];
 		memset(buffer, 0, NETWORK_BUFFER_SIZE);
 		setvbuf(stream, buffer, _IOFBF, NETWORK_BUFFER_SIZE);
+		recv_stream = fdopen(dup(consocket), "rb");
+		recv_buffer = new char[NETWORK_BUFFER_SIZE];
+		memset(recv_buffer, 0, NETWORK_BUFFER_SIZE);
+		setvbuf(recv_stream, recv_buffer, _IOFBF, NETWORK_BUFFER_SIZE);
 		if(!quiet)
 			std::cout << "connected\n";
 	}
@@ -101,7 +109,9 @@ class NetIO: public IOChannel<NetIO> { public:
 	~NetIO(){
 		flush();
 		fclose(stream);
+		fclose(recv_stream);
 		delete[] buffer;
+		delete[] recv_buffer;
 	}
 
 	void set_nodelay() {
@@ -136,7 +146,7 @@ class NetIO: public IOChannel<NetIO> { public:
 		has_sent = false;
 		size_t sent = 0;
 		while(sent < len) {
-			size_t res = fread(sent + (char*)data, 1, len - sent, stream);
+			size_t res = fread(sent + (char*)data, 1, len - sent, recv_stream);
 			if (res > 0)
 				sent += res;
 			else
-- 
2.43.0


From 0ceb66d8635bca391eb1376811fc3b87e5ff905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:22 +0000
Subject: [PATCH 09/14] fix: HighSpeedNetIO pads from the start of its buffer
 instead of reading past the end

---
 emp-tool/io/highspeed_net_io_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..89c382b 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -49,7 +49,7 @@ class SenderSubChannel : public SubChannel { public:
 		flushes++;
 		send_data_raw(buf, ptr);
 		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From 9f47ea02032ca6336bbcf402c4e2b61f4678ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:25 +0000
Subject: [PATCH 10/14] fix: MemIO::clear also resets the read position

---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..aa61624 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From 0c519461ffcd4f26a7a6f025e53d7c2d807bd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:57 +0000
Subject: [PATCH 11/14] fix: send_bool/recv_bool transmit the same bytes
 whatever the alignment of the arrays

---
 emp-tool/io/io_channel.h | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..eb6d3fb 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -50,30 +50,14 @@ class IOChannel { public:
 		}
 	}	
 
+	// What is transmitted must not depend on the alignment of the array, which
+	// may differ between sender and receiver.
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From 0611076dbde1b6126cb836d7f05df018d344c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 12/14] fix: AES counter mode carries into the upper half of
 the counter

---
 emp-tool/circuits/aes_128_ctr.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..6d6c18c 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -43,6 +43,9 @@ int aes_128_ctr(const __m128i key,
 		for(size_t i = 0; i < 8; ++i) {
 			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
 		}
+		if (count < start_chunk) { // carry into the upper 8 bytes
+			for(size_t i = 8; i < 16 && ++((uint8_t *)(&counter))[15 - i] == 0; ++i);
+		}
 	}
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
@@ -214,8 +217,12 @@ class AES_128_CTR_Calculator { public:
 			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
 		}
 		count += start_chunk;
+		bool carry = count < start_chunk; // whether to increment the upper 8 bytes
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
+			if (carry) {
+				for(size_t j = 8; j < 16 && ++((uint8_t *)(&counter))[15 - j] == 0; ++j);
+			}
 			for(size_t j = 0; j < 8; ++j) {
 				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
 			}
@@ -229,7 +236,7 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			carry = (++count == 0);
 		}
 
 		return 0;
-- 
2.43.0


From d37420a9966a37282f8b0fdc47d373f5bdd1de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 13/14] fix: circuit emission writes constants for revealed
 public values instead of wire 0

---
 emp-tool/execution/plain_prot.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..fe55f27 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -14,6 +14,7 @@ public:
 	bool print;
 	string filename;
 	PlainCircExec * cast_circ_exec;
+	// wires revealed so far; constants have no wire and are recorded as -1 (zero) and -2 (one)
 	std::vector<int64_t>output_vec;
 	PlainProt(bool _print, string _filename) : print(_print), 
 	filename(_filename) {
@@ -46,8 +47,11 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
+			if (cast_circ_exec->is_public(label[i], PUBLIC))
+				output_vec.push_back(b[i] ? -2 : -1);
+			else
+				output_vec.push_back(arr[1]);
 		}
 		n3+=length;
 	}
@@ -64,7 +68,10 @@ inline void finalize_plain_prot () {
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
-		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
+		if (v == -2)
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<cast_circ_exec->gid++<<" INV"<<endl;
+		else
+			cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<(v < 0 ? z_index : v)<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
-- 
2.43.0


From 9b2b3f92bcd168263c7983d23a5c74f39fd728dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:19 +0000
Subject: [PATCH 14/14] fix: BristolFashion::from_file does not accumulate
 input and output counts of an earlier load

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..71ec9f3 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -146,6 +146,7 @@ class BristolFashion { public:
 		int tmp;
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
+		num_input = num_output = 0;
 		(void)fscanf(f, "%d", &niov);
 		for(int i = 0; i < niov; ++i) {
 			(void)fscanf(f, "%d", &tmp);
-- 
2.43.0

