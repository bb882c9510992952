From da5e929e16831f7551d919019feb593d3c9ec7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:03 +0000
Subject: [PATCH 01/97] fix: escape child names when writing JSON schemas and
 nodes

A child name that holds a quote, backslash or control character produced
JSON that could not be parsed back, so such trees could not be sent with
the using_schema MPI calls or saved and loaded.
---
 src/libs/conduit/conduit_node.cpp   | 4 +++-
 src/libs/conduit/conduit_schema.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..5b19ec8 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13500,7 +13500,9 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(m_schema->object_order()[i])
+               << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..a33e868 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -546,7 +546,9 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(object_order()[i])
+               << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
-- 
2.43.0


From 5181392c29f4a68a1c7d1f75ec4fd58e24bc331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 02/97] fix: relay mpi calls send the right bytes for nodes
 with a non-zero offset

reduce, all_reduce and gather sent from the start of the allocation rather
than the first element, and the using_schema calls sent the sender's
offsets along with a buffer in which they do not apply.
---
 src/libs/relay/conduit_relay_mpi.cpp | 34 ++++++++++------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 330381a..92e7284 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -531,15 +531,9 @@ send_using_schema(const Node &node, int dest, int tag, MPI_Comm comm)
 {     
     Schema s_data_compact;
     
-    // schema will only be valid if compact and contig
-    if( node.is_compact() && node.is_contiguous())
-    {
-        s_data_compact = node.schema();
-    }
-    else
-    {
-        node.schema().compact_to(s_data_compact);
-    }
+    // always compact the schema: even a compact and contiguous node can have
+    // non-zero offsets, which do not apply to the message buffer
+    node.schema().compact_to(s_data_compact);
     
     std::string snd_schema_json = s_data_compact.to_json();
         
@@ -844,7 +838,7 @@ reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -923,7 +917,7 @@ all_reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -1362,7 +1356,6 @@ gather(Node &send_node,
     if(snd_ptr != NULL && 
        send_node.is_compact() )
     {
-        snd_ptr  = send_node.data_ptr();
         snd_size = send_node.total_bytes_compact();
     }
     else
@@ -1834,7 +1827,10 @@ broadcast_using_schema(Node &node,
            node.is_compact() && 
            node.is_contiguous())
         {
-            bcast_buffers["schema"] = node.schema().to_json();
+            // the data may start at a non-zero offset on root only
+            Schema s_data_compact;
+            node.schema().compact_to(s_data_compact);
+            bcast_buffers["schema"] = s_data_compact.to_json();
         }
         else
         {
@@ -2093,15 +2089,9 @@ communicate_using_schema::execute_internal()
         {
             Schema s_data_compact;
             const Node &node = *operations[i].node[0];
-            // schema will only be valid if compact and contig
-            if( node.is_compact() && node.is_contiguous())
-            {
-                s_data_compact = node.schema();
-            }
-            else
-            {
-                node.schema().compact_to(s_data_compact);
-            }
+            // always compact the schema: even a compact and contiguous node can have
+            // non-zero offsets, which do not apply to the message buffer
+            node.schema().compact_to(s_data_compact);
     
             std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From c4c81a1288851b08bbb75f3c7d3c59671eb016af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:48 +0000
Subject: [PATCH 03/97] fix: broadcast_using_schema receives as many bytes as
 root sends

A receiving leaf with room for more elements than root sends is used in
place, but its own size was passed to MPI_Bcast.
---
 src/libs/relay/conduit_relay_mpi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 92e7284..6235b67 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1897,7 +1897,8 @@ broadcast_using_schema(Node &node,
         {
             
             bcast_data_ptr  = node.contiguous_data_ptr();
-            bcast_data_size = static_cast<int>(node.total_bytes_compact());
+            // `node` may be larger than the data that root sends
+            bcast_data_size = static_cast<int>(bcast_schema.total_bytes_compact());
             
             if( bcast_data_ptr == NULL ||
                 ! node.is_compact() )
-- 
2.43.0


From 8b603a51d7f8cc38bbbb0b97609908c0d2ec8083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:19 +0000
Subject: [PATCH 04/97] fix: find the largest MPI tag on a private communicator

The self messages were sent on the caller's communicator, where a pending
irecv from any source with any tag could receive them: the receive then
held the wrong data and the probing rank waited for ever.
---
 src/libs/relay/conduit_relay_mpi.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 6235b67..d6b87a7 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -410,11 +410,22 @@ private:
      *       program from dying if the default handler is set to abort on error. The
      *       error handler is restored when leaving this function.
      */
-    static int probe(MPI_Comm comm)
+    static int probe(MPI_Comm /*comm*/)
     {
-        // Temporarily override MPI error handler with a more benign one.
-        HandleMPICommError err(comm);
-        int tag = probeTagUpperBound(0, std::numeric_limits<int>::max(), comm);
+        // Use a private communicator: on the caller's, a pending receive from
+        // any source with any tag would match the messages that we send here.
+        MPI_Comm probe_comm;
+        int mpi_error = MPI_Comm_dup(MPI_COMM_SELF, &probe_comm);
+        CONDUIT_CHECK_MPI_ERROR(mpi_error);
+
+        int tag = 0;
+        {
+            // Temporarily override MPI error handler with a more benign one.
+            HandleMPICommError err(probe_comm);
+            tag = probeTagUpperBound(0, std::numeric_limits<int>::max(), probe_comm);
+        }
+
+        MPI_Comm_free(&probe_comm);
         return tag;
     }
 
-- 
2.43.0


From 1577b1d2d6f5b2480de38dc7d53ad9bb224b0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:56 +0000
Subject: [PATCH 05/97] fix: do not unescape inline JSON strings twice

The JSON parser already resolves escape sequences, resolving them again
changed strings that contain backslashes when loading conduit_json.
---
 src/libs/conduit/conduit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..b1dbe53 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -956,8 +956,9 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
     {
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
+            // note: escapes were already handled by the JSON parser
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            node.set(sval);
         }
         else
         {
-- 
2.43.0


From 094c3978d3efdfae085571585251ea7b4e059d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:31 +0000
Subject: [PATCH 06/97] fix: sanitize JSON strings with escaped backslashes and
 at the start of input

A string that ends with an escaped backslash, a quote in a comment, and a
string or keyword at the very start or end of the input confused the
detection of quoted text, so that saved nodes did not reload.
---
 src/libs/conduit/conduit_utils.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..fb18be2 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -959,19 +959,21 @@ json_sanitize(const std::string &json)
     bool        in_comment=false;
     bool        in_string=false;
     bool        in_id =false;
+    bool        escaped=false; // is the current string char escaped?
     std::string cur_id = "";
 
     for(size_t i = 0; i < json.size(); ++i)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        if(json[i] == '\"' && !escaped && !in_comment)
         {
             if(in_string)
                 in_string = false;
             else
                 in_string = true;
         }
+        escaped = in_string && json[i] == '\\' && !escaped;
 
         // handle two cases were we want to sanitize:
         // comments '//' to end of line & unquoted ids
@@ -995,9 +997,9 @@ json_sanitize(const std::string &json)
                 {
                     // ids can't start with numbers ,
                     // check the prior char if it exists
-                    if(i > 0 &&
-                       !check_num_char(json[i-1]) &&
-                       json[i-1] != '.')
+                    if(i == 0 ||
+                       (!check_num_char(json[i-1]) &&
+                        json[i-1] != '.'))
                     {
                         in_id = true;
                         // accum id chars
@@ -1052,6 +1054,15 @@ json_sanitize(const std::string &json)
             res += json[i];
     }
 
+    // an id that ends the input
+    if(in_id)
+    {
+        if( cur_id == "true" || cur_id == "false" || cur_id == "null" )
+            res += cur_id;
+        else
+            res += "\"" + cur_id + "\"";
+    }
+
     return res;
 }
 
-- 
2.43.0


From 685208975dba89a52f8ea4ee1ec0b95e0f349330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:24 +0000
Subject: [PATCH 07/97] fix: Node::serialize places children at compact offsets

Children were placed by their strided size although the buffer holds the
compact size and the compact schema describes it, so serializing strided
leaves shifted data and wrote behind the buffer.
---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5b19ec8..5334ea6 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17615,7 +17615,7 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From 0b405d89aacc0d58f3ae0f315d23a48487008d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:29 +0000
Subject: [PATCH 08/97] fix: read the root of an open HDF5 file in creation
 order

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 40c0a8e..164f9cd 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2655,6 +2655,18 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
 
     hid_t h5_gc_plist = H5Gget_create_plist(hdf5_group_id);
 
+    if( ! CONDUIT_HDF5_VALID_ID(h5_gc_plist) )
+    {
+        // hdf5_group_id may be a file id, in that case the property list
+        // comes from the root group
+        hid_t h5_root_id = H5Gopen(hdf5_group_id, ".", H5P_DEFAULT);
+        if( CONDUIT_HDF5_VALID_ID(h5_root_id) )
+        {
+            h5_gc_plist = H5Gget_create_plist(h5_root_id);
+            H5Gclose(h5_root_id);
+        }
+    }
+
     if( CONDUIT_HDF5_VALID_ID(h5_gc_plist) )
     {
         unsigned int h5_gc_flags = 0;
-- 
2.43.0


From c726bae27dc57cec9a75681f8f6e83ae37682c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:02 +0000
Subject: [PATCH 09/97] fix: report short reads and failed writes of node and
 schema files

---
 src/libs/conduit/conduit_node.cpp       | 87 ++++++++++++++++++++++++-
 src/libs/conduit/conduit_schema.cpp     | 20 ++++++
 src/libs/relay/conduit_relay_io_csv.cpp |  6 ++
 3 files changed, 112 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5334ea6..4899015 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -296,14 +296,24 @@ Node::load(const std::string &stream_path,
     reset();
     index_t dsize = schema.spanned_bytes();
 
-    allocate(dsize);
     std::ifstream ifs;
     ifs.open(stream_path.c_str(), std::ios_base::binary);
     if(!ifs.is_open())
     {
         CONDUIT_ERROR("<Node::load> failed to open: " << stream_path);
     }
+    allocate(dsize);
     ifs.read((char *)m_data,dsize);
+    if(!ifs)
+    {
+        // note: release() skips the buffer of a node that is still empty
+        utils::conduit_free(m_data, m_allocator_id);
+        m_data      = NULL;
+        m_data_size = 0;
+        m_alloced   = false;
+        CONDUIT_ERROR("<Node::load> failed to read " << dsize
+                      << " bytes from: " << stream_path);
+    }
     ifs.close();
 
     //
@@ -8438,6 +8448,11 @@ Node::serialize(const std::string &stream_path) const
     }
     serialize(ofs);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::serialize> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -12705,6 +12720,11 @@ Node::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,protocol,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -12781,6 +12801,11 @@ Node::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,opts);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -12893,6 +12918,11 @@ Node::to_summary_string_stream(const std::string &stream_path,
     }
     to_summary_string_stream(ofs,opts);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_summary_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13171,6 +13201,11 @@ Node::to_json_stream(const std::string &stream_path,
                    pad,
                    eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13281,6 +13316,11 @@ Node::to_json_stream(const std::string &stream_path,
     }
     to_json_stream(ofs,opts);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13331,6 +13371,11 @@ Node::to_yaml_stream(const std::string &stream_path,
                    pad,
                    eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13428,6 +13473,11 @@ Node::to_yaml_stream(const std::string &stream_path,
     }
     to_yaml_stream(ofs,opts);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -13475,6 +13525,11 @@ Node::to_json_generic(const std::string &stream_path,
     }
     to_json_generic(ofs,detailed,address,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13662,6 +13717,11 @@ Node::to_pure_json(const std::string &stream_path,
     }
     to_json_generic(ofs,false,false,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_pure_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -13702,6 +13762,11 @@ Node::to_detailed_json(const std::string &stream_path,
     }
     to_json_generic(ofs,true,false,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_detailed_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13744,6 +13809,11 @@ Node::to_detailed_json_external(const std::string &stream_path,
     }
     to_json_generic(ofs,true,true,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_detailed_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13789,6 +13859,11 @@ Node::to_base64_json(const std::string &stream_path,
     }
     to_base64_json(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_base64_json> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -13890,6 +13965,11 @@ Node::to_yaml_generic(const std::string &stream_path,
     }
     to_yaml_generic(ofs,detailed,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_yaml_generic> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 
@@ -14023,6 +14103,11 @@ Node::to_pure_yaml(const std::string &stream_path,
     }
     to_yaml_generic(ofs,false,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Node::to_pure_yaml> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index a33e868..8cc56d3 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -506,6 +506,11 @@ Schema::to_string_stream(const std::string &stream_path,
     }
     to_string_stream(ofs,protocol,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Schema::to_string_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -598,6 +603,11 @@ Schema::to_json_stream(const std::string &stream_path,
     }
     to_json_stream(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Schema::to_json_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -688,6 +698,11 @@ Schema::to_yaml_stream(const std::string &stream_path,
     }
     to_yaml_stream(ofs,indent,depth,pad,eoe);
     ofs.close();
+    if(!ofs)
+    {
+        CONDUIT_ERROR("<Schema::to_yaml_stream> failed to write file: "
+                      << "\"" << stream_path << "\"");
+    }
 }
 
 //---------------------------------------------------------------------------//
@@ -725,6 +740,11 @@ Schema::save(const std::string &ofname,
     }
     ofile << oss.str();
     ofile.close();
+    if(!ofile)
+    {
+        CONDUIT_ERROR("<Schema::save> failed to write file: "
+                      << "\"" << ofname << "\"");
+    }
 }
 
 
diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index b00c22a..e59ee8c 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -173,6 +173,12 @@ write_row_based(const Node &table, const std::string &path)
         }
         fout << "\n";
     }
+
+    fout.close();
+    if(!fout)
+    {
+        CONDUIT_ERROR("Failed to write file " << quote(path) << ".");
+    }
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From e8093265b395be02227755dde5814404bf8fb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:21 +0000
Subject: [PATCH 10/97] fix: IOHandle survives failing to open, close and
 destruct

---
 src/libs/relay/conduit_relay_io_handle.cpp | 70 ++++++++++++++--------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 53d42d4..3a8710d 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -394,7 +394,15 @@ BasicHandle::BasicHandle(const std::string &path,
 //-----------------------------------------------------------------------------
 BasicHandle::~BasicHandle()
 {
-    close();
+    // destructors can't throw, use close() to find out about errors
+    try
+    {
+        close();
+    }
+    catch(...)
+    {
+        // empty
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -610,7 +618,15 @@ HDF5Handle::HDF5Handle(const std::string &path,
 //-----------------------------------------------------------------------------
 HDF5Handle::~HDF5Handle()
 {
-    close();
+    // destructors can't throw, use close() to find out about errors
+    try
+    {
+        close();
+    }
+    catch(...)
+    {
+        // empty
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -810,9 +826,11 @@ HDF5Handle::close()
 {
     if(m_h5_id >= 0)
     {
-        hdf5_close_file(m_h5_id);
+        // the id can't be used again, even if closing the file fails
+        hid_t h5_id = m_h5_id;
+        m_h5_id = -1;
+        hdf5_close_file(h5_id);
     }
-    m_h5_id = -1;
 }
 
 //-----------------------------------------------------------------------------
@@ -836,19 +854,23 @@ IOHandle::IOHandle()
 //-----------------------------------------------------------------------------
 IOHandle::~IOHandle()
 {
-    close();
+    // destructors can't throw, use close() to find out about errors
+    try
+    {
+        close();
+    }
+    catch(...)
+    {
+        delete m_handle;
+        m_handle = NULL;
+    }
 }
 
 //-----------------------------------------------------------------------------
 void
 IOHandle::open(const std::string &path)
 {
-    close();
-    m_handle = HandleInterface::create(path);
-    if(m_handle != NULL)
-    {
-        m_handle->open();
-    }
+    open(path,std::string(),Node());
 }
 
 //-----------------------------------------------------------------------------
@@ -856,12 +878,7 @@ void
 IOHandle::open(const std::string &path,
                const std::string &protocol)
 {
-    close();
-    m_handle = HandleInterface::create(path, protocol);
-    if(m_handle != NULL)
-    {
-        m_handle->open();
-    }
+    open(path,protocol,Node());
 }
 
 //-----------------------------------------------------------------------------
@@ -869,12 +886,7 @@ void
 IOHandle::open(const std::string &path,
                const Node &options)
 {
-    close();
-    m_handle = HandleInterface::create(path, options);
-    if(m_handle != NULL)
-    {
-        m_handle->open();
-    }
+    open(path,std::string(),options);
 }
 
 //-----------------------------------------------------------------------------
@@ -887,7 +899,17 @@ IOHandle::open(const std::string &path,
     m_handle = HandleInterface::create(path, protocol, options);
     if(m_handle != NULL)
     {
-        m_handle->open();
+        try
+        {
+            m_handle->open();
+        }
+        catch(...)
+        {
+            // don't keep a handle that could not be opened
+            delete m_handle;
+            m_handle = NULL;
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From c7498a32c51056851de6db7d529e43309ab17fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:21 +0000
Subject: [PATCH 11/97] fix: write only IOHandle keeps existing contents of non
 HDF5 files

---
 src/libs/relay/conduit_relay_io_handle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 3a8710d..92cc878 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -417,8 +417,9 @@ BasicHandle::open()
     // we start out with a blank slate
     if( utils::is_file( path() ) )
     {
-        // read if handle is not 'write' only and we aren't truncating
-        if( open_mode_read() && !open_mode_truncate() )
+        // existing contents are kept unless we are truncating
+        // (write only handles also append to them)
+        if( !open_mode_truncate() )
         {
             // read from file
             io::load(path(),
-- 
2.43.0


From f0811897716a5a21118936105326ebcb635139f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:36 +0000
Subject: [PATCH 12/97] fix: HDF5 error checks make the checked call only once

---
 src/libs/relay/conduit_relay_io_hdf5.cpp     | 12 ++++++++----
 src/libs/relay/conduit_relay_io_hdf5_api.hpp |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 164f9cd..497db87 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -58,11 +58,13 @@
 //-----------------------------------------------------------------------------
 #define CONDUIT_CHECK_HDF5_ERROR_WITH_REF_PATH( hdf5_err, ref_path, msg ) \
 {                                                                         \
-    if( hdf5_err < 0 )                                                    \
+    /* evaluate the call only once */                                     \
+    const hid_t hdf5_err_code = (hdf5_err);                               \
+    if( hdf5_err_code < 0 )                                               \
     {                                                                     \
         std::ostringstream hdf5_err_oss;                                  \
         hdf5_err_oss << "HDF5 Error (error code: "                        \
-            <<  hdf5_err                                                  \
+            <<  hdf5_err_code                                             \
             <<  ", reference path: \""                                    \
             <<  ref_path << "\""                                          \
             <<  ") " << msg;                                              \
@@ -75,13 +77,15 @@
 //-----------------------------------------------------------------------------
 #define CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH( hdf5_err, hdf5_obj_id, ref_path, msg ) \
 {                                                                         \
-    if( hdf5_err < 0 )                                                    \
+    /* evaluate the call only once */                                     \
+    const hid_t hdf5_err_code = (hdf5_err);                               \
+    if( hdf5_err_code < 0 )                                               \
     {                                                                     \
         /* Try to find the file system path from hdf5_obj */              \
         ssize_t hdf5_f_sz = H5Fget_name(hdf5_obj_id, NULL, 0 );           \
         std::ostringstream hdf5_err_oss;                                  \
         hdf5_err_oss << "HDF5 Error (error code: "                        \
-            <<  hdf5_err                                                  \
+            <<  hdf5_err_code                                             \
             <<  ", reference path: \"";                                   \
         if(hdf5_f_sz > 0)                                                 \
         {                                                                 \
diff --git a/src/libs/relay/conduit_relay_io_hdf5_api.hpp b/src/libs/relay/conduit_relay_io_hdf5_api.hpp
index 399f0a6..45fb396 100644
--- a/src/libs/relay/conduit_relay_io_hdf5_api.hpp
+++ b/src/libs/relay/conduit_relay_io_hdf5_api.hpp
@@ -16,11 +16,13 @@
 //-----------------------------------------------------------------------------
 #define CONDUIT_CHECK_HDF5_ERROR( hdf5_err, msg    )                \
 {                                                                   \
-    if( hdf5_err < 0 )                                              \
+    /* evaluate the call only once */                               \
+    const hid_t hdf5_err_code = (hdf5_err);                         \
+    if( hdf5_err_code < 0 )                                         \
     {                                                               \
         std::ostringstream hdf5_err_oss;                            \
         hdf5_err_oss << "HDF5 Error code"                           \
-            <<  hdf5_err                                            \
+            <<  hdf5_err_code                                       \
             << " " << msg;                                          \
         CONDUIT_ERROR( hdf5_err_oss.str());                         \
     }                                                               \
-- 
2.43.0


From dc25296a2a1d3f5886001ac92c4cc58da8b3368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:15 +0000
Subject: [PATCH 13/97] fix: close HDF5 files when reading or writing them
 fails

---
 src/libs/relay/conduit_relay_io_handle.cpp | 19 ++++++
 src/libs/relay/conduit_relay_io_hdf5.cpp   | 72 +++++++++++++++++++++-
 2 files changed, 88 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 92cc878..8168a1c 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -830,6 +830,25 @@ HDF5Handle::close()
         // the id can't be used again, even if closing the file fails
         hid_t h5_id = m_h5_id;
         m_h5_id = -1;
+
+        // failed operations may leave objects open, and these would keep
+        // the file open
+        const unsigned h5_obj_types = H5F_OBJ_DATASET | H5F_OBJ_GROUP |
+                                      H5F_OBJ_DATATYPE | H5F_OBJ_LOCAL;
+        ssize_t num_objs = H5Fget_obj_count(h5_id, h5_obj_types);
+        if(num_objs > 0)
+        {
+            std::vector<hid_t> h5_obj_ids(num_objs, -1);
+            num_objs = H5Fget_obj_ids(h5_id,
+                                      h5_obj_types,
+                                      h5_obj_ids.size(),
+                                      &h5_obj_ids[0]);
+            for(ssize_t i = 0; i < num_objs; i++)
+            {
+                H5Oclose(h5_obj_ids[i]);
+            }
+        }
+
         hdf5_close_file(h5_id);
     }
 }
diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 497db87..771d9b1 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -387,6 +387,63 @@ private:
     bool          active;
 };
 
+//-----------------------------------------------------------------------------
+// Helper class that closes a file we opened, and everything that was opened
+// through its id, when an error makes us leave before the file is closed.
+//-----------------------------------------------------------------------------
+class HDF5FileGuard
+{
+public:
+        explicit HDF5FileGuard(hid_t file_id)
+        : h5_file_id(file_id)
+        {
+            // empty
+        }
+
+       ~HDF5FileGuard()
+        {
+            if(CONDUIT_HDF5_VALID_ID(h5_file_id))
+            {
+                hdf5_close_file_objects(h5_file_id);
+                H5Fclose(h5_file_id);
+            }
+        }
+
+    // hands the id back to the caller, who has to close the file
+    hid_t release()
+    {
+        hid_t res = h5_file_id;
+        h5_file_id = -1;
+        return res;
+    }
+
+    // closes groups, datasets, ... that were opened through the passed file id
+    static void hdf5_close_file_objects(hid_t file_id)
+    {
+        const unsigned h5_obj_types = H5F_OBJ_DATASET | H5F_OBJ_GROUP |
+                                      H5F_OBJ_DATATYPE | H5F_OBJ_LOCAL;
+        ssize_t num_objs = H5Fget_obj_count(file_id, h5_obj_types);
+        if(num_objs > 0)
+        {
+            std::vector<hid_t> h5_obj_ids(num_objs, -1);
+            num_objs = H5Fget_obj_ids(file_id,
+                                      h5_obj_types,
+                                      h5_obj_ids.size(),
+                                      &h5_obj_ids[0]);
+            for(ssize_t i = 0; i < num_objs; i++)
+            {
+                H5Oclose(h5_obj_ids[i]);
+            }
+        }
+    }
+
+private:
+    HDF5FileGuard(const HDF5FileGuard &);
+    HDF5FileGuard &operator=(const HDF5FileGuard &);
+
+    hid_t h5_file_id;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -3637,13 +3694,16 @@ hdf5_write(const Node &node,
         h5_file_id = hdf5_create_file(file_path);
     }
 
+    // make sure the file is closed if something goes wrong
+    HDF5FileGuard h5_file_guard(h5_file_id);
+
     hdf5_write(node,
                h5_file_id,
                hdf5_path,
                opts);
 
     // close the hdf5 file
-    CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
+    CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_guard.release()),
                              "Error closing HDF5 file: " << file_path);
 
     // restore hdf5 error stack
@@ -3782,13 +3842,16 @@ hdf5_read(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
+    // make sure the file is closed if something goes wrong
+    HDF5FileGuard h5_file_guard(h5_file_id);
+
     hdf5_read(h5_file_id,
               hdf5_path,
               opts,
               node);
 
     // close the hdf5 file
-    CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
+    CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_guard.release()),
                              "Error closing HDF5 file: " << file_path);
 }
 
@@ -3927,13 +3990,16 @@ hdf5_read_info(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
+    // make sure the file is closed if something goes wrong
+    HDF5FileGuard h5_file_guard(h5_file_id);
+
     hdf5_read_info(h5_file_id,
               hdf5_path,
               opts,
               node);
 
     // close the hdf5 file
-    CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
+    CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_guard.release()),
                              "Error closing HDF5 file: " << file_path);
 }
 
-- 
2.43.0


From 2c584282b1c991bade7532e4b1cb76163a07721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:20 +0000
Subject: [PATCH 14/97] fix: silo_read reports failed reads, close Silo files
 on errors

---
 src/libs/relay/conduit_relay_io_silo.cpp | 41 +++++++++++++++++-------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index adf06e2..eb5c697 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -143,7 +143,15 @@ void silo_write(const Node &node,
                               DB_HDF5);
 
     CONDUIT_ASSERT(dbfile, "Error opening Silo file for writing: " << file_path);
-    silo_write(node,dbfile,silo_obj_path);
+    try
+    {
+        silo_write(node,dbfile,silo_obj_path);
+    }
+    catch(...)
+    {
+        DBClose(dbfile);
+        throw;
+    }
     CONDUIT_ASSERT(DBClose(dbfile) == 0, "Error closing Silo file: " << file_path);
 }
 
@@ -155,7 +163,15 @@ void silo_read(const std::string &file_path,
     DBfile *dbfile = DBOpen(file_path.c_str(), DB_HDF5, DB_READ);
 
     CONDUIT_ASSERT(dbfile, "Error opening Silo file for reading: " << file_path);
-    silo_read(dbfile,silo_obj_path,n);
+    try
+    {
+        silo_read(dbfile,silo_obj_path,n);
+    }
+    catch(...)
+    {
+        DBClose(dbfile);
+        throw;
+    }
     CONDUIT_ASSERT(DBClose(dbfile) == 0, "Error closing Silo file: " << file_path);
 }
 
@@ -209,22 +225,25 @@ void silo_read(DBfile *dbfile,
     int schema_len = DBGetVarLength(dbfile, src_json.c_str());
     int data_len   = DBGetVarLength(dbfile, src_data.c_str());
 
-    char *schema = new char[schema_len];
-    char *data   = new char[data_len];
+    CONDUIT_ASSERT(schema_len > 0 && data_len > 0,
+        "Error extracting data conduit Node from Silo file");
 
+    std::vector<char> schema(schema_len);
+    std::vector<char> data(data_len);
 
-    DBReadVar(dbfile, src_json.c_str(), schema);
-    DBReadVar(dbfile, src_data.c_str(), data);
+    int silo_error = 0;
+    silo_error += DBReadVar(dbfile, src_json.c_str(), &schema[0]);
+    silo_error += DBReadVar(dbfile, src_data.c_str(), &data[0]);
 
-    CONDUIT_ASSERT(!(schema == NULL || data == NULL), 
+    CONDUIT_CHECK_SILO_ERROR(silo_error,
         "Error extracting data conduit Node from Silo file");
 
-    Generator node_gen(schema, "conduit_json", data);
+    // don't rely on the schema having a null terminator
+    const std::string schema_str(&schema[0],
+                                 strnlen(&schema[0], schema.size()));
+    Generator node_gen(schema_str, "conduit_json", &data[0]);
     /// gen copy
     node_gen.walk(node);
-
-    delete [] schema;
-    delete [] data;
 }
 
 
-- 
2.43.0


From 48af50dc5731aeb716947611bd01dbff73b40425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:21 +0000
Subject: [PATCH 15/97] fix: HDF5 IOHandle lists no children for paths that do
 not exist

---
 src/libs/relay/conduit_relay_io_handle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 8168a1c..757786e 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -799,7 +799,12 @@ HDF5Handle::list_child_names(const std::string &path,
 {
     // note: wrong mode errors are handled before dispatch to interface
 
-    hdf5_group_list_child_names(m_h5_id, path, res);
+    // a path that does not exist has no children
+    res.clear();
+    if(hdf5_has_path(m_h5_id, path))
+    {
+        hdf5_group_list_child_names(m_h5_id, path, res);
+    }
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From fa34ecc1c4415819a365a0750b8790751f9696c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:51 +0000
Subject: [PATCH 16/97] fix: Node::add_child turns lists and leaves into
 objects safely

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 4899015..0cb762b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14355,6 +14355,12 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // as with fetch, adding a named child forces OBJECT_ID
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From 842f04faeaff9a4b3dc4944f2316cfdc3c7a43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:21 +0000
Subject: [PATCH 17/97] fix: HDF5 options given to one call are restored also
 when the call fails

---
 src/libs/relay/conduit_relay_io.cpp          | 24 ++-----------
 src/libs/relay/conduit_relay_io_handle.cpp   | 24 ++-----------
 src/libs/relay/conduit_relay_io_hdf5.cpp     | 33 ++++++++++++++++++
 src/libs/relay/conduit_relay_io_hdf5_api.hpp | 18 ++++++++++
 src/libs/relay/conduit_relay_mpi_io.cpp      | 36 ++------------------
 5 files changed, 58 insertions(+), 77 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 0d5e891..0cae594 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -366,20 +366,10 @@ save(const Node &node,
     {
 #ifdef CONDUIT_RELAY_IO_HDF5_ENABLED
         // hdf5 is the only protocol that currently takes "options"
-        Node prev_options;
-        if(options.has_child("hdf5"))
-        {
-            hdf5_options(prev_options);
-            hdf5_set_options(options["hdf5"]);
-        }
+        HDF5OptionsScope hdf5_options_scope(options);
 
         hdf5_save(node,path,options);
 
-        if(!prev_options.dtype().is_empty())
-        {
-            hdf5_set_options(prev_options);
-        }
-
 #else
         CONDUIT_ERROR("conduit_relay lacks HDF5 support: " <<
                       "Failed to save conduit node to path " << path);
@@ -493,19 +483,9 @@ save_merged(const Node &node,
     {
 #ifdef CONDUIT_RELAY_IO_HDF5_ENABLED
         // hdf5 is the only protocol that currently takes "options"
-        Node prev_options;
-        if(options.has_child("hdf5"))
-        {
-            hdf5_options(prev_options);
-            hdf5_set_options(options["hdf5"]);
-        }
+        HDF5OptionsScope hdf5_options_scope(options);
 
         hdf5_append(node,path,options);
-
-        if(!prev_options.dtype().is_empty())
-        {
-            hdf5_set_options(prev_options);
-        }
 #else
         CONDUIT_ERROR("conduit_relay lacks HDF5 support: " <<
                       "Failed to save conduit node to path " << path);
diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 757786e..08ce43a 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -732,19 +732,9 @@ HDF5Handle::write(const Node &node,
 
     // Options Push / Pop (only needed for write, since hdf5 only supports
     // write options
-    Node prev_options;
-    if(options().has_child("hdf5"))
-    {
-        hdf5_options(prev_options);
-        hdf5_set_options(options()["hdf5"]);
-    }
+    HDF5OptionsScope hdf5_options_scope(options());
 
     hdf5_write(node,m_h5_id, opts);
-
-    if(!prev_options.dtype().is_empty())
-    {
-        hdf5_set_options(prev_options);
-    }
 }
 
 
@@ -768,19 +758,9 @@ HDF5Handle::write(const Node &node,
 
     // Options Push / Pop (only needed for write, since hdf5 only supports
     // write options
-    Node prev_options;
-    if(options().has_child("hdf5"))
-    {
-        hdf5_options(prev_options);
-        hdf5_set_options(options()["hdf5"]);
-    }
+    HDF5OptionsScope hdf5_options_scope(options());
 
     hdf5_write(node,m_h5_id,path,opts);
-
-    if(!prev_options.dtype().is_empty())
-    {
-        hdf5_set_options(prev_options);
-    }
 }
 
 //-----------------------------------------------------------------------------
diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 771d9b1..6889827 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -322,6 +322,39 @@ hdf5_options(Node &opts)
     HDF5Options::about(opts);
 }
 
+//-----------------------------------------------------------------------------
+HDF5OptionsScope::HDF5OptionsScope(const Node &options)
+: m_active(options.has_child("hdf5")),
+  m_prev()
+{
+    if(m_active)
+    {
+        HDF5Options::about(m_prev);
+        // about does not report these unless they are in effect
+        m_prev["messages"] = HDF5Options::messages;
+        m_prev["chunking/compression/level"] = HDF5Options::compression_level;
+
+        try
+        {
+            HDF5Options::set(options["hdf5"]);
+        }
+        catch(...)
+        {
+            HDF5Options::set(m_prev);
+            throw;
+        }
+    }
+}
+
+//-----------------------------------------------------------------------------
+HDF5OptionsScope::~HDF5OptionsScope()
+{
+    if(m_active)
+    {
+        HDF5Options::set(m_prev);
+    }
+}
+
 //-----------------------------------------------------------------------------
 // Private class used to suppress HDF5 error messages.
 //
diff --git a/src/libs/relay/conduit_relay_io_hdf5_api.hpp b/src/libs/relay/conduit_relay_io_hdf5_api.hpp
index 45fb396..bfdb146 100644
--- a/src/libs/relay/conduit_relay_io_hdf5_api.hpp
+++ b/src/libs/relay/conduit_relay_io_hdf5_api.hpp
@@ -456,6 +456,24 @@ void CONDUIT_RELAY_API hdf5_remove_path(hid_t hdf5_id, const std::string &path);
 //-----------------------------------------------------------------------------
 void CONDUIT_RELAY_API hdf5_set_options(const Node &opts);
 
+//-----------------------------------------------------------------------------
+/// Applies the "hdf5" child of options (if any) for the lifetime of this
+/// object, and restores all prior hdf5 options when destroyed.
+//-----------------------------------------------------------------------------
+class CONDUIT_RELAY_API HDF5OptionsScope
+{
+public:
+    explicit HDF5OptionsScope(const Node &options);
+    ~HDF5OptionsScope();
+
+private:
+    HDF5OptionsScope(const HDF5OptionsScope &);
+    HDF5OptionsScope &operator=(const HDF5OptionsScope &);
+
+    bool m_active;
+    Node m_prev;
+};
+
 //-----------------------------------------------------------------------------
 /// Get a Node that contains hdf5 i/o options.
 //-----------------------------------------------------------------------------
diff --git a/src/libs/relay/conduit_relay_mpi_io.cpp b/src/libs/relay/conduit_relay_mpi_io.cpp
index 2d4b857..29db1ec 100644
--- a/src/libs/relay/conduit_relay_mpi_io.cpp
+++ b/src/libs/relay/conduit_relay_mpi_io.cpp
@@ -227,19 +227,9 @@ save(const Node &node,
     else if( protocol == "hdf5")
     {
 #ifdef CONDUIT_RELAY_IO_HDF5_ENABLED
-        Node prev_options;
-        if(options.has_child("hdf5"))
-        {
-            hdf5_options(prev_options);
-            hdf5_set_options(options["hdf5"]);
-        }
+        HDF5OptionsScope hdf5_options_scope(options);
 
         hdf5_save(node,path);
-        
-        if(!prev_options.dtype().is_empty())
-        {
-            hdf5_set_options(prev_options);
-        }
 #else
         CONDUIT_ERROR("conduit_relay_mpi_io lacks HDF5 support: " << 
                       "Failed to save conduit node to path " << path);
@@ -324,20 +314,10 @@ save_merged(const Node &node,
     {
 #ifdef CONDUIT_RELAY_IO_HDF5_ENABLED
         
-        Node prev_options;
-        if(options.has_child("hdf5"))
-        {
-            hdf5_options(prev_options);
-            hdf5_set_options(options["hdf5"]);
-        }
+        HDF5OptionsScope hdf5_options_scope(options);
         
         hdf5_write(node,path);
         
-        if(!prev_options.dtype().is_empty())
-        {
-            hdf5_set_options(prev_options);
-        }
-        
         
 #else
         CONDUIT_ERROR("conduit_relay lacks HDF5 support: " << 
@@ -488,19 +468,9 @@ load(const std::string &path,
     {
 #ifdef CONDUIT_RELAY_IO_HDF5_ENABLED
         node.reset();
-        Node prev_options;
-        if(options.has_child("hdf5"))
-        {
-            hdf5_options(prev_options);
-            hdf5_set_options(options["hdf5"]);
-        }
+        HDF5OptionsScope hdf5_options_scope(options);
         
         hdf5_read(path,node);
-        
-        if(!prev_options.dtype().is_empty())
-        {
-            hdf5_set_options(prev_options);
-        }
 #else
         CONDUIT_ERROR("conduit_relay_mpi_io lacks HDF5 support: " << 
                       "Failed to load conduit node from path " << path);
-- 
2.43.0


From e39436e0c1544d9e81df5348a1484dd30b071ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:33 +0000
Subject: [PATCH 18/97] fix: mpi io save_merged appends to an existing HDF5
 file

---
 src/libs/relay/conduit_relay_mpi_io.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi_io.cpp b/src/libs/relay/conduit_relay_mpi_io.cpp
index 29db1ec..deabbc2 100644
--- a/src/libs/relay/conduit_relay_mpi_io.cpp
+++ b/src/libs/relay/conduit_relay_mpi_io.cpp
@@ -316,9 +316,8 @@ save_merged(const Node &node,
         
         HDF5OptionsScope hdf5_options_scope(options);
         
-        hdf5_write(node,path);
-        
-        
+        hdf5_append(node,path);
+
 #else
         CONDUIT_ERROR("conduit_relay lacks HDF5 support: " << 
                       "Failed to save conduit node to path " << path);
-- 
2.43.0


From 357a65f9293aa11014ddc1d9ae732e882455394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:33 +0000
Subject: [PATCH 19/97] fix: save_merged merges with an existing Silo file

---
 src/libs/relay/conduit_relay_io.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 0cae594..2f9baf3 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -494,9 +494,16 @@ save_merged(const Node &node,
     else if( protocol == "conduit_silo")
     {
 #ifdef CONDUIT_RELAY_IO_SILO_ENABLED
+        // check for ":" split
+        std::string file_path;
+        std::string silo_obj_base;
+        conduit::utils::split_file_path(path,
+                                        std::string(":"),
+                                        file_path,
+                                        silo_obj_base);
         Node n;
         // support case where the path is initially empty
-        if(utils::is_file(path))
+        if(utils::is_file(file_path))
         {
             silo_read(path,n);
         }
-- 
2.43.0


From a7e8b3a5f2576ee1687112ce414cae8e987aeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:33 +0000
Subject: [PATCH 20/97] fix: close the parent group when an HDF5 dataset is
 made extendible

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 6889827..6db5b7f 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1870,7 +1870,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // close the old dataset to prevent the old identifier from
             // interfering
             H5Oclose(hdf5_dset_id);
-            H5Dclose(hdf5_dset_parent_id);
+            H5Oclose(hdf5_dset_parent_id);
 
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
-- 
2.43.0


From d76d65ae22151e4a78463c72e480c7c45d796f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:04 +0000
Subject: [PATCH 21/97] fix: HDF5 writes with offset 0 keep the rest of a
 longer fixed size dataset

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 6db5b7f..08d30f4 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1768,9 +1768,11 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
     hsize_t dataset_max_dims[1];
     H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
 
-    // if the layout is fixed and no offset/stride is supplied,
-    // the entire array is overwriten
-    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1)
+    // if the layout is fixed and no offset/stride is supplied (or the node
+    // covers the whole dataset), the entire array is overwriten
+    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1 &&
+        ( (!opts.has_child("offset") && !opts.has_child("stride")) ||
+          (hsize_t) dt.number_of_elements() == dataset_dim) )
     {
 
         // if the node is compact, we can write directly from its data ptr
-- 
2.43.0


From e27d60c609fdb45399d2e95e5309a8df3a261127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:29 +0000
Subject: [PATCH 22/97] fix: an HDF5 object that cannot be opened is not taken
 for a missing one

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 08d30f4..5217b6d 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1251,6 +1251,12 @@ check_if_conduit_object_is_compatible_with_hdf5_tree(const Node &node,
                                                                 ref_path,
                              "Failed to close HDF5 Object: " << h5_child_obj);
             }
+            else if(H5Lexists(hdf5_id, itr.name().c_str(), H5P_DEFAULT) > 0)
+            {
+                // the child exists, but we could not look at it
+                CONDUIT_HDF5_ERROR(chld_ref_path,
+                                   "Failed to open existing HDF5 object");
+            }
             // no child exists with this name,  we are ok (it can be created
             // to match) check the next child
         }
@@ -1347,6 +1353,12 @@ check_if_conduit_list_is_compatible_with_hdf5_tree(const Node &node,
                                                                 ref_path,
                              "Failed to close HDF5 Object: " << h5_child_obj);
             }
+            else if(H5Lexists(hdf5_id, itr.name().c_str(), H5P_DEFAULT) > 0)
+            {
+                // the child exists, but we could not look at it
+                CONDUIT_HDF5_ERROR(chld_ref_path,
+                                   "Failed to open existing HDF5 object");
+            }
             // no child exists with this index,  we are ok (it can be created
             // to match)
         }
-- 
2.43.0


From 411e931765a76ec7809b88d9a811d3a5c8fba73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:21 +0000
Subject: [PATCH 23/97] fix: a failing partial HDF5 write does not keep the
 file open

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 32 ++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 5217b6d..0f4db18 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -477,6 +477,34 @@ private:
     hid_t h5_file_id;
 };
 
+//-----------------------------------------------------------------------------
+// Private class that releases a reference to a file id
+// (as obtained from H5Iget_file_id) when it goes out of scope
+//-----------------------------------------------------------------------------
+class HDF5FileRefGuard
+{
+public:
+        explicit HDF5FileRefGuard(hid_t file_id)
+        : h5_file_id(file_id)
+        {
+            // empty
+        }
+
+       ~HDF5FileRefGuard()
+        {
+            if(CONDUIT_HDF5_VALID_ID(h5_file_id))
+            {
+                H5Fclose(h5_file_id);
+            }
+        }
+
+private:
+    HDF5FileRefGuard(const HDF5FileRefGuard &);
+    HDF5FileRefGuard &operator=(const HDF5FileRefGuard &);
+
+    hid_t h5_file_id;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -1850,7 +1878,9 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             std::string hdf5_dset_path = std::string(&hdf5_i_buff[0]);
 
             // get the hdf5 file ID containing dset
+            // (released when leaving this scope, also on error)
             hid_t hdf5_id = H5Iget_file_id(hdf5_dset_id);
+            HDF5FileRefGuard hdf5_id_guard(hdf5_id);
 
             // get dset's name and parent group name
             std::string hdf5_dset_parent_name;
@@ -1889,8 +1919,6 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
 
-            H5Fclose(hdf5_id);
-
             H5Sclose(dataspace);
             dataspace = H5Dget_space(hdf5_dset_id);
         }
-- 
2.43.0


From 7bba64342818db20e4cf9f688c20a98513cb4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 24/97] fix: Node::mmap reports missing or short files and
 cleans up when mapping fails

---
 src/libs/conduit/conduit_node.cpp | 63 ++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 0cb762b..c71338b 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17185,7 +17185,7 @@ class Node::MMap
 
   private:
       void      *m_data;
-      int        m_data_size;
+      index_t    m_data_size;
 
 #if !defined(CONDUIT_PLATFORM_WINDOWS)
       // memory-map file descriptor
@@ -17216,7 +17216,15 @@ Node::MMap::MMap()
 //-----------------------------------------------------------------------------
 Node::MMap::~MMap()
 {
-    close();
+    // a destructor must not throw
+    try
+    {
+        close();
+    }
+    catch(...)
+    {
+        // nothing else we can do here
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -17230,28 +17238,40 @@ Node::MMap::open(const std::string &path,
     }
 
 #if !defined(CONDUIT_PLATFORM_WINDOWS)
-    m_mmap_fd   = ::open(path.c_str(),
-                         (O_RDWR | O_CREAT),
-                         (S_IRUSR | S_IWUSR));
-
-    m_data_size = data_size;
+    m_mmap_fd   = ::open(path.c_str(),O_RDWR);
 
     if (m_mmap_fd == -1)
-    {
     {
         CONDUIT_ERROR("<Node::mmap> failed to open file: "
                      << "\"" << path << "\"");
     }
+
+    // touching mapped memory past the end of the file would crash
+    struct stat file_info;
+    if (::fstat(m_mmap_fd, &file_info) != 0 ||
+        (index_t)file_info.st_size < data_size)
+    {
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
+        CONDUIT_ERROR("<Node::mmap> file is smaller than the data to map: "
+                     << "\"" << path << "\"");
     }
 
-    m_data = ::mmap(0,
-                    m_data_size,
-                    (PROT_READ | PROT_WRITE),
-                    MAP_SHARED,
-                    m_mmap_fd, 0);
+    void *data = ::mmap(0,
+                        (size_t)data_size,
+                        (PROT_READ | PROT_WRITE),
+                        MAP_SHARED,
+                        m_mmap_fd, 0);
 
-    if (m_data == MAP_FAILED)
+    if (data == MAP_FAILED)
+    {
+        ::close(m_mmap_fd);
+        m_mmap_fd = -1;
         CONDUIT_ERROR("<Node::mmap> mmap data = MAP_FAILED" << path);
+    }
+
+    m_data      = data;
+    m_data_size = data_size;
 #else
     m_file_hnd = CreateFile(path.c_str(),
                             (GENERIC_READ | GENERIC_WRITE),
@@ -17281,7 +17301,7 @@ Node::MMap::open(const std::string &path,
                            FILE_MAP_ALL_ACCESS,
                            0, 0, 0);
 
-    m_data_size = (int)data_size;
+    m_data_size = data_size;
 
     if (m_data == NULL)
     {
@@ -17386,8 +17406,17 @@ Node::allocate(index_t dsize)
 void
 Node::mmap(const std::string &stream_path, index_t data_size)
 {
-    m_mmap = new MMap();
-    m_mmap->open(stream_path,data_size);
+    MMap *mmap_ptr = new MMap();
+    try
+    {
+        mmap_ptr->open(stream_path,data_size);
+    }
+    catch(...)
+    {
+        delete mmap_ptr;
+        throw;
+    }
+    m_mmap = mmap_ptr;
     m_data = m_mmap->data_ptr();
     m_data_size = data_size;
     m_alloced = false;
-- 
2.43.0


From 883b5c360e3028ebeafc5be771ac563b845c7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 25/97] fix: close HDF5 identifiers when an HDF5 read or write
 fails

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 153 +++++++++++++++++------
 1 file changed, 115 insertions(+), 38 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 0f4db18..529d64b 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -29,11 +29,11 @@
 //-----------------------------------------------------------------------------
 /// macro used to check if an HDF5 object id is valid
 //-----------------------------------------------------------------------------
-#define CONDUIT_HDF5_VALID_ID( hdf5_id )   hdf5_id  >= 0
+#define CONDUIT_HDF5_VALID_ID( hdf5_id )   ( (hdf5_id) >= 0 )
 //-----------------------------------------------------------------------------
 /// macro used to check if an HDF5 return status is ok
 //-----------------------------------------------------------------------------
-#define CONDUIT_HDF5_STATUS_OK(hdf5_id )   hdf5_id  >= 0
+#define CONDUIT_HDF5_STATUS_OK(hdf5_id )   ( (hdf5_id) >= 0 )
 
 //-----------------------------------------------------------------------------
 /// The CONDUIT_HDF5_ERROR macro is used for errors with ref paths.
@@ -505,6 +505,44 @@ private:
     hid_t h5_file_id;
 };
 
+//-----------------------------------------------------------------------------
+// Private class that closes the identifier held by the passed variable if we
+// leave the scope (on error) before the identifier was closed or handed out.
+//-----------------------------------------------------------------------------
+class HDF5IdGuard
+{
+public:
+        explicit HDF5IdGuard(hid_t &id)
+        : h5_id(id),
+          active(true)
+        {
+            // empty
+        }
+
+       ~HDF5IdGuard()
+        {
+            // note: H5P_DEFAULT is zero
+            if(active && h5_id > 0)
+            {
+                H5Idec_ref(h5_id);
+            }
+        }
+
+    // hands the id to the caller, who has to close it
+    hid_t release()
+    {
+        active = false;
+        return h5_id;
+    }
+
+private:
+    HDF5IdGuard(const HDF5IdGuard &);
+    HDF5IdGuard &operator=(const HDF5IdGuard &);
+
+    hid_t &h5_id;
+    bool   active;
+};
+
 //-----------------------------------------------------------------------------
 // helper method decls
 //-----------------------------------------------------------------------------
@@ -1090,6 +1128,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
     {
         // get the hdf5 dataspace for the passed hdf5 obj
         hid_t h5_test_dspace = H5Dget_space(hdf5_id);
+        HDF5IdGuard h5_test_dspace_guard(h5_test_dspace);
 
         if( H5Sget_simple_extent_type(h5_test_dspace) == H5S_NULL )
         {
@@ -1117,6 +1156,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
 
             // get the hdf5 datatype for the passed hdf5 obj
             hid_t h5_test_dtype  = H5Dget_type(hdf5_id);
+            HDF5IdGuard h5_test_dtype_guard(h5_test_dtype);
 
             // we will check the 1d-properties of the hdf5 dataspace
             hssize_t h5_test_num_ele = H5Sget_simple_extent_npoints(h5_test_dspace);
@@ -1178,7 +1218,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
                 res = false;
             }
 
-            CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_test_dtype),
+            CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_test_dtype_guard.release()),
                                                             hdf5_id,
                                                             ref_path,
                                      "Failed to close HDF5 Datatype "
@@ -1187,7 +1227,7 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
             conduit_dtype_to_hdf5_dtype_cleanup(h5_dtype);
         }
 
-        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_test_dspace),
+        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_test_dspace_guard.release()),
                                                         hdf5_id,
                                                         ref_path,
                          "Failed to close HDF5 Dataspace " << h5_test_dspace);
@@ -1262,6 +1302,7 @@ check_if_conduit_object_is_compatible_with_hdf5_tree(const Node &node,
             hid_t h5_child_obj = H5Oopen(hdf5_id,
                                         itr.name().c_str(),
                                         H5P_DEFAULT);
+            HDF5IdGuard h5_child_obj_guard(h5_child_obj);
 
             std::string chld_ref_path = join_ref_paths(ref_path,itr.name());
             if( CONDUIT_HDF5_VALID_ID(h5_child_obj) )
@@ -1274,7 +1315,7 @@ check_if_conduit_object_is_compatible_with_hdf5_tree(const Node &node,
                                                                   opts,
                                                                   incompat_details);
 
-                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
+                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj_guard.release()),
                                                                 hdf5_id,
                                                                 ref_path,
                              "Failed to close HDF5 Object: " << h5_child_obj);
@@ -1364,6 +1405,7 @@ check_if_conduit_list_is_compatible_with_hdf5_tree(const Node &node,
                                                 H5_ITER_INC,
                                                 itr.index(),
                                                 H5P_DEFAULT);
+            HDF5IdGuard h5_child_obj_guard(h5_child_obj);
 
             std::string chld_ref_path = join_ref_paths(ref_path,itr.name());
             if( CONDUIT_HDF5_VALID_ID(h5_child_obj) )
@@ -1376,7 +1418,7 @@ check_if_conduit_list_is_compatible_with_hdf5_tree(const Node &node,
                                                                   opts,
                                                                   incompat_details);
 
-                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
+                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj_guard.release()),
                                                                 hdf5_id,
                                                                 ref_path,
                              "Failed to close HDF5 Object: " << h5_child_obj);
@@ -1536,6 +1578,7 @@ create_hdf5_dataset_for_conduit_leaf(const DataType &dtype,
     hsize_t num_eles = (hsize_t) dtype.number_of_elements();
 
     hid_t h5_cprops_id = H5P_DEFAULT;
+    HDF5IdGuard h5_cprops_id_guard(h5_cprops_id);
 
     bool unlimited_dim = false;
 
@@ -1563,6 +1606,7 @@ create_hdf5_dataset_for_conduit_leaf(const DataType &dtype,
 
                                          "Failed to create HDF5 property list");
     hid_t h5_dspace_id = -1;
+    HDF5IdGuard h5_dspace_id_guard(h5_dspace_id);
 
     // string a scalar with size embedded in type is disabled
     // b/c this path undermines compression
@@ -1619,7 +1663,7 @@ create_hdf5_dataset_for_conduit_leaf(const DataType &dtype,
     // close plist used for compression
     if(h5_cprops_id != H5P_DEFAULT)
     {
-        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Pclose(h5_cprops_id),
+        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Pclose(h5_cprops_id_guard.release()),
                                                         hdf5_group_id,
                                                         ref_path,
                                            "Failed to close HDF5 compression "
@@ -1628,7 +1672,7 @@ create_hdf5_dataset_for_conduit_leaf(const DataType &dtype,
     }
 
     // close our dataspace
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id_guard.release()),
                                                     hdf5_group_id,
                                                     ref_path,
                                            "Failed to close HDF5 Dataspace "
@@ -1649,7 +1693,9 @@ create_hdf5_dataset_for_conduit_empty(hid_t hdf5_group_id,
     hid_t res = -1;
     // for conduit empty, use an opaque data type with zero size;
     hid_t h5_dtype_id  = H5Tcreate(H5T_OPAQUE, 1);
+    HDF5IdGuard h5_dtype_id_guard(h5_dtype_id);
     hid_t h5_dspace_id = H5Screate(H5S_NULL);
+    HDF5IdGuard h5_dspace_id_guard(h5_dspace_id);
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_dspace_id,
                                                     hdf5_group_id,
@@ -1672,12 +1718,12 @@ create_hdf5_dataset_for_conduit_empty(hid_t hdf5_group_id,
                                            << hdf5_group_id
                                            << " " << hdf5_dset_name);
     // close our datatype
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_dtype_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_dtype_id_guard.release()),
                                                     hdf5_group_id,
                                                     ref_path,
                                            "Failed to close HDF5 Datatype");
     // close our dataspace
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id_guard.release()),
                                                     hdf5_group_id,
                                                     ref_path,
                                            "Failed to close HDF5 Dataspace "
@@ -1694,6 +1740,7 @@ create_hdf5_group_for_conduit_node(const Node &node,
                                    const std::string &hdf5_new_group_name)
 {
     hid_t h5_gc_plist = H5Pcreate(H5P_GROUP_CREATE);
+    HDF5IdGuard h5_gc_plist_guard(h5_gc_plist);
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_gc_plist,
                                                     hdf5_parent_group_id,
@@ -1763,7 +1810,7 @@ create_hdf5_group_for_conduit_node(const Node &node,
                           << " parent: " << hdf5_parent_group_id
                           << " name: "   << hdf5_new_group_name);
 
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Pclose(h5_gc_plist),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Pclose(h5_gc_plist_guard.release()),
                                                     hdf5_parent_group_id,
                                                     ref_path,
                          "Failed to close HDF5 H5P_GROUP_CREATE "
@@ -1804,6 +1851,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
 
     // get dimensions of dset
     hid_t dataspace = H5Dget_space(hdf5_dset_id);
+    HDF5IdGuard dataspace_guard(dataspace);
     hsize_t dataset_dim = H5Sget_simple_extent_npoints(dataspace);
     hsize_t dataset_max_dims[1];
     H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
@@ -1848,6 +1896,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
         // get the node dset size
         hsize_t node_size[1] = {(hsize_t) dt.number_of_elements()};
         hid_t nodespace = H5Screate_simple(1, node_size, NULL);
+        HDF5IdGuard nodespace_guard(nodespace);
 
         hsize_t offsets[1] = {offset};
         hsize_t strides[1] = {stride};
@@ -1897,6 +1946,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // get dset's parent group ID
             hid_t hdf5_dset_parent_id = H5Oopen(hdf5_id,
                 hdf5_dset_parent_name.c_str(), H5P_DEFAULT);
+            HDF5IdGuard hdf5_dset_parent_id_guard(hdf5_dset_parent_id);
 
             // delete old dset (space is made inaccessible, lost,
             // and not reclaimed)
@@ -1914,7 +1964,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // close the old dataset to prevent the old identifier from
             // interfering
             H5Oclose(hdf5_dset_id);
-            H5Oclose(hdf5_dset_parent_id);
+            H5Oclose(hdf5_dset_parent_id_guard.release());
 
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
@@ -1972,9 +2022,9 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
                                  n.data_ptr());
         }
 
-        H5Sclose(nodespace);
+        H5Sclose(nodespace_guard.release());
     }
-    H5Sclose(dataspace);
+    H5Sclose(dataspace_guard.release());
 
     // check write result
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_status,
@@ -2023,6 +2073,7 @@ write_conduit_leaf_to_hdf5_group(const Node &node,
     //                                         NULL);
 
     hid_t h5_child_id = -1;
+    HDF5IdGuard h5_child_id_guard(h5_child_id);
 
     if( CONDUIT_HDF5_STATUS_OK(h5_info_status) )
     {
@@ -2073,7 +2124,7 @@ write_conduit_leaf_to_hdf5_group(const Node &node,
                                        h5_child_id,
                                        opts);
 
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_child_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_child_id_guard.release()),
                                                     hdf5_group_id,
                                                     ref_path,
                                            "Failed to close HDF5 Dataset: "
@@ -2218,6 +2269,7 @@ write_conduit_node_children_to_hdf5_group(const Node &node,
 #endif
 
             hid_t h5_child_id = -1;
+            HDF5IdGuard h5_child_id_guard(h5_child_id);
 
             if( CONDUIT_HDF5_STATUS_OK(h5_info_status) )
             {
@@ -2249,7 +2301,7 @@ write_conduit_node_children_to_hdf5_group(const Node &node,
                                                       h5_child_id,
                                                       opts);
 
-            CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_child_id),
+            CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_child_id_guard.release()),
                                                             hdf5_group_id,
                                                             ref_path,
                                      "Failed to close HDF5 Group "
@@ -2321,6 +2373,7 @@ write_conduit_hdf5_list_attribute(hid_t hdf5_group_id,
     int att_value = 1;
 
     hid_t h5_dspace_id = H5Screate(H5S_SCALAR);
+    HDF5IdGuard h5_dspace_id_guard(h5_dspace_id);
 
     hid_t h5_attr_id  = H5Acreate(hdf5_group_id,
                                   conduit_hdf5_list_attr_name.c_str(),
@@ -2328,6 +2381,7 @@ write_conduit_hdf5_list_attribute(hid_t hdf5_group_id,
                                   h5_dspace_id,
                                   H5P_DEFAULT,
                                   H5P_DEFAULT);
+    HDF5IdGuard h5_attr_id_guard(h5_attr_id);
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_attr_id,
                                                     hdf5_group_id,
@@ -2350,14 +2404,14 @@ write_conduit_hdf5_list_attribute(hid_t hdf5_group_id,
                                            << conduit_hdf5_list_attr_name.c_str());
 
     // close our dataspace
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id_guard.release()),
                                                     hdf5_group_id,
                                                     ref_path,
                                            "Failed to close HDF5 Dataspace "
                                            << h5_dspace_id);
 
     // close our attribute
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Aclose(h5_attr_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Aclose(h5_attr_id_guard.release()),
                                                     hdf5_group_id,
                                                     ref_path,
                                            "Failed to close HDF5 Attribute "
@@ -2652,6 +2706,7 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                 hid_t h5_group_id = H5Gopen(hdf5_id,
                                             hdf5_path,
                                             H5P_DEFAULT);
+                HDF5IdGuard h5_group_id_guard(h5_group_id);
                 CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_group_id,
                                                                 hdf5_id,
                                                                 h5_od->ref_path,
@@ -2673,7 +2728,7 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                   *chld_node_ptr);
 
                 // close the group
-                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_group_id),
+                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_group_id_guard.release()),
                                                                 hdf5_id,
                                                                 h5_od->ref_path,
                                                        "Error closing HDF5 "
@@ -2692,6 +2747,7 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
             hid_t h5_dset_id = H5Dopen(hdf5_id,
                                        hdf5_path,
                                        H5P_DEFAULT);
+            HDF5IdGuard h5_dset_id_guard(h5_dset_id);
 
             CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_dset_id,
                                                             hdf5_id,
@@ -2709,7 +2765,7 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
                                                 *chld_node_ptr);
 
             // close the dataset
-            CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_dset_id),
+            CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Dclose(h5_dset_id_guard.release()),
                                                             hdf5_id,
                                                             h5_od->ref_path,
                                                    "Error closing HDF5 "
@@ -2987,6 +3043,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                     Node &dest)
 {
     hid_t h5_dspace_id = H5Dget_space(hdf5_dset_id);
+    HDF5IdGuard h5_dspace_id_guard(h5_dspace_id);
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_dspace_id,
                                                     hdf5_dset_id,
                                                     ref_path,
@@ -3002,6 +3059,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
     else
     {
         hid_t h5_dtype_id  = H5Dget_type(hdf5_dset_id);
+        HDF5IdGuard h5_dtype_id_guard(h5_dtype_id);
 
         CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_dtype_id,
                                                         hdf5_dset_id,
@@ -3063,29 +3121,32 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                                                 ref_path,
                                             "Error closing HDF5 Datatype: "
                                             << h5_dtype_id);
+                h5_dtype_id = -1;
 
                 // get ref to standard variant of this dtype
-                h5_dtype_id  = conduit_dtype_to_hdf5_dtype(dt,
-                                                           ref_path);
+                hid_t h5_std_dtype_id = conduit_dtype_to_hdf5_dtype(dt,
+                                                                    ref_path);
 
-                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_dtype_id,
+                CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_std_dtype_id,
                                                                 hdf5_dset_id,
                                                                 ref_path,
                                             "Error creating HDF5 Datatype");
 
                 // copy since the logic after read will cleanup
-                h5_dtype_id  = H5Tcopy(h5_dtype_id);
+                h5_dtype_id  = H5Tcopy(h5_std_dtype_id);
                 CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_dtype_id,
                                                                 hdf5_dset_id,
                                                                 ref_path,
                                             "Error copying HDF5 Datatype");
                 // cleanup our ref from conduit_dtype_to_hdf5_dtype if necessary
-                conduit_dtype_to_hdf5_dtype_cleanup(h5_dtype_id);
+                conduit_dtype_to_hdf5_dtype_cleanup(h5_std_dtype_id);
             }
 
             hsize_t node_size[1] = {readtotal};
             hid_t nodespace = H5Screate_simple(1,node_size,NULL);
+            HDF5IdGuard nodespace_guard(nodespace);
             hid_t dataspace = H5Dget_space(hdf5_dset_id);
+            HDF5IdGuard dataspace_guard(dataspace);
 
             // select hyperslab
             H5Sselect_hyperslab(dataspace, H5S_SELECT_SET, offset, stride,
@@ -3158,8 +3219,8 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                 dest.set(n_tmp);
             }
 
-            H5Sclose(nodespace);
-            H5Sclose(dataspace);
+            H5Sclose(nodespace_guard.release());
+            H5Sclose(dataspace_guard.release());
         }
 
         if(opts.dtype().is_empty())
@@ -3183,7 +3244,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
                                                             << nelems);
         }
 
-        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_dtype_id),
+        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Tclose(h5_dtype_id_guard.release()),
                                                         hdf5_dset_id,
                                                         ref_path,
                                                "Error closing HDF5 Datatype: "
@@ -3191,7 +3252,7 @@ read_hdf5_dataset_into_conduit_node(hid_t hdf5_dset_id,
 
     }
 
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Sclose(h5_dspace_id_guard.release()),
                                                     hdf5_dset_id,
                                                     ref_path,
                                            "Error closing HDF5 Dataspace: "
@@ -3304,6 +3365,7 @@ create_hdf5_file_access_plist()
 {
     // create property list and set use latest lib ver settings
     hid_t h5_fa_props = H5Pcreate(H5P_FILE_ACCESS);
+    HDF5IdGuard h5_fa_props_guard(h5_fa_props);
 
     CONDUIT_CHECK_HDF5_ERROR(h5_fa_props,
                              "Failed to create H5P_FILE_ACCESS "
@@ -3382,7 +3444,7 @@ create_hdf5_file_access_plist()
                                  << "property list " << h5_fa_props);
 
     }
-    return h5_fa_props;
+    return h5_fa_props_guard.release();
 }
 
 //---------------------------------------------------------------------------//
@@ -3391,6 +3453,7 @@ create_hdf5_file_create_plist()
 {
     // create property list and set it to preserve creation order
     hid_t h5_fc_props = H5Pcreate(H5P_FILE_CREATE);
+    HDF5IdGuard h5_fc_props_guard(h5_fc_props);
 
     CONDUIT_CHECK_HDF5_ERROR(h5_fc_props,
                              "Failed to create H5P_FILE_CREATE "
@@ -3402,7 +3465,7 @@ create_hdf5_file_create_plist()
     CONDUIT_CHECK_HDF5_ERROR(h5_status,
                              "Failed to set creation order options for "
                              << "property list " << h5_fc_props);
-    return h5_fc_props;
+    return h5_fc_props_guard.release();
 }
 
 //---------------------------------------------------------------------------//
@@ -3421,7 +3484,9 @@ hdf5_create_file(const std::string &file_path)
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
     hid_t h5_fc_plist = create_hdf5_file_create_plist();
+    HDF5IdGuard h5_fc_plist_guard(h5_fc_plist);
     hid_t h5_fa_plist = create_hdf5_file_access_plist();
+    HDF5IdGuard h5_fa_plist_guard(h5_fa_plist);
 
     // open the hdf5 file for writing
     hid_t h5_file_id = H5Fcreate(file_path.c_str(),
@@ -3433,11 +3498,11 @@ hdf5_create_file(const std::string &file_path)
                              "Error opening HDF5 file for writing: "
                              << file_path);
 
-    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fc_plist),
+    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fc_plist_guard.release()),
                              "Failed to close HDF5 H5P_GROUP_CREATE "
                              << "property list: " << h5_fc_plist);
 
-    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist),
+    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist_guard.release()),
                              "Failed to close HDF5 H5P_FILE_ACCESS "
                              << "property list: " << h5_fa_plist);
 
@@ -3802,6 +3867,7 @@ hdf5_open_file_for_read(const std::string &file_path)
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
     hid_t h5_fa_plist = create_hdf5_file_access_plist();
+    HDF5IdGuard h5_fa_plist_guard(h5_fa_plist);
 
     // open the hdf5 file for reading
     hid_t h5_file_id = H5Fopen(file_path.c_str(),
@@ -3812,7 +3878,7 @@ hdf5_open_file_for_read(const std::string &file_path)
                              "Error opening HDF5 file for read only access: "
                               << file_path);
 
-    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist),
+    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist_guard.release()),
                              "Failed to close HDF5 H5P_FILE_ACCESS "
                              << "property list: " << h5_fa_plist);
 
@@ -3829,6 +3895,7 @@ hdf5_open_file_for_read_write(const std::string &file_path)
     HDF5ErrorStackSupressor supress_hdf5_errors;
 
     hid_t h5_fa_plist = create_hdf5_file_access_plist();
+    HDF5IdGuard h5_fa_plist_guard(h5_fa_plist);
 
     // open the hdf5 file for read + write
     hid_t h5_file_id = H5Fopen(file_path.c_str(),
@@ -3839,7 +3906,7 @@ hdf5_open_file_for_read_write(const std::string &file_path)
                              "Error opening HDF5 file for read + write access: "
                               << file_path);
 
-    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist),
+    CONDUIT_CHECK_HDF5_ERROR(H5Pclose(h5_fa_plist_guard.release()),
                              "Failed to close HDF5 H5P_FILE_ACCESS "
                              << "property list: " << h5_fa_plist);
 
@@ -3873,6 +3940,7 @@ hdf5_read(hid_t hdf5_id,
     hid_t h5_child_obj  = H5Oopen(hdf5_id,
                                   hdf5_path.c_str(),
                                   H5P_DEFAULT);
+    HDF5IdGuard h5_child_obj_guard(h5_child_obj);
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_child_obj,
                                                     hdf5_id,
@@ -3886,7 +3954,7 @@ hdf5_read(hid_t hdf5_id,
                                      opts,
                                      dest);
 
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj_guard.release()),
                                                     hdf5_id,
                                                     hdf5_path,
                              "Failed to close HDF5 Object: "
@@ -4021,6 +4089,7 @@ hdf5_read_info(hid_t hdf5_id,
     hid_t h5_child_obj  = H5Oopen(hdf5_id,
                                   hdf5_path.c_str(),
                                   H5P_DEFAULT);
+    HDF5IdGuard h5_child_obj_guard(h5_child_obj);
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_child_obj,
                                                     hdf5_id,
@@ -4034,7 +4103,7 @@ hdf5_read_info(hid_t hdf5_id,
                                      opts,
                                      dest);
 
-    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj_guard.release()),
                                                     hdf5_id,
                                                     hdf5_path,
                              "Failed to close HDF5 Object: "
@@ -4274,6 +4343,7 @@ void hdf5_group_list_child_names(hid_t hdf5_id,
     hid_t h5_group_id = H5Gopen(hdf5_id,
                                 hdf5_path.c_str(),
                                 H5P_DEFAULT);
+    HDF5IdGuard h5_group_id_guard(h5_group_id);
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_group_id,
                                                     hdf5_id,
@@ -4289,6 +4359,13 @@ void hdf5_group_list_child_names(hid_t hdf5_id,
     H5G_info_t  h5_group_info;
     h5_status = H5Gget_info(h5_group_id, &h5_group_info);
 
+    CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_status,
+                                                    hdf5_id,
+                                           "",
+                                           "Error fetching HDF5 Group info: "
+                                           << " path:"
+                                           << hdf5_path);
+
     // buffer for child names, if the names are bigger than this
     // buffer can hold, we will fall back to a malloc
     char name_buff[512];
@@ -4345,7 +4422,7 @@ void hdf5_group_list_child_names(hid_t hdf5_id,
         }
    }
 
-   CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_group_id),
+   CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_group_id_guard.release()),
                                                    hdf5_id,
                                           "",
                                           "Failed to close HDF5 Group "
-- 
2.43.0


From f4df766199aff1a463b6a31e43ab3818ea89d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:40 +0000
Subject: [PATCH 26/97] fix: free the buffer of a node whose data type is empty

---
 src/libs/conduit/conduit_node.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c71338b..8300e15 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17439,17 +17439,11 @@ Node::release()
     // clean up any allocated or mmaped buffers
     if(m_alloced && m_data)
     {
-        ///
-        /// TODO: why do we need to check for empty here?
-        ///
-        if(dtype().id() != DataType::EMPTY_ID)
-        {
-            // clean up our storage
-            utils::conduit_free(m_data, m_allocator_id);
-            m_data = NULL;
-            m_data_size = 0;
-            m_alloced   = false;
-        }
+        // clean up our storage
+        utils::conduit_free(m_data, m_allocator_id);
+        m_data = NULL;
+        m_data_size = 0;
+        m_alloced   = false;
     }
     else if(m_mmaped && m_mmap)
     {
-- 
2.43.0


From 5bcd8ea171683ce170fab24ae92119440dad5ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:40 +0000
Subject: [PATCH 27/97] fix: do not throw through HDF5's iteration

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 41 +++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 529d64b..e625bc6 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -19,6 +19,7 @@
 //-----------------------------------------------------------------------------
 // standard lib includes
 //-----------------------------------------------------------------------------
+#include <exception>
 #include <iostream>
 
 //-----------------------------------------------------------------------------
@@ -2503,6 +2504,9 @@ struct h5_read_opdata
 
     // whether to only get metadata
     bool             metadata_only;
+
+    // error that stopped the traversal
+    std::exception_ptr error;
 };
 
 //---------------------------------------------------------------------------//
@@ -2629,10 +2633,9 @@ h5l_iterate_traverse_op_func_get_child(Node &node,
 //  circular path in the file.
 //---------------------------------------------------------------------------//
 herr_t
-h5l_iterate_traverse_op_func(hid_t hdf5_id,
-                             const char *hdf5_path,
-                             const H5L_info_t *,// hdf5_info -- unused
-                             void *hdf5_operator_data)
+h5l_iterate_traverse_op(hid_t hdf5_id,
+                        const char *hdf5_path,
+                        void *hdf5_operator_data)
 {
     herr_t h5_status = 0;
     herr_t h5_return_val = 0;
@@ -2782,6 +2785,31 @@ h5l_iterate_traverse_op_func(hid_t hdf5_id,
     return h5_return_val;
 }
 
+//---------------------------------------------------------------------------//
+/// H5Literate is C code: an exception must not unwind through it, or the
+/// HDF5 library can't release what it uses to iterate. We stop the iteration
+/// and the caller of H5Literate rethrows.
+//---------------------------------------------------------------------------//
+herr_t
+h5l_iterate_traverse_op_func(hid_t hdf5_id,
+                             const char *hdf5_path,
+                             const H5L_info_t *,// hdf5_info -- unused
+                             void *hdf5_operator_data)
+{
+    struct h5_read_opdata *h5_od = (struct h5_read_opdata*)hdf5_operator_data;
+    try
+    {
+        return h5l_iterate_traverse_op(hdf5_id,
+                                       hdf5_path,
+                                       hdf5_operator_data);
+    }
+    catch(...)
+    {
+        h5_od->error = std::current_exception();
+    }
+    return -1;
+}
+
 
 //---------------------------------------------------------------------------//
 void
@@ -2895,6 +2923,11 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
                            h5l_iterate_traverse_op_func,
                            (void *) &h5_od);
 
+    if(h5_od.error)
+    {
+        std::rethrow_exception(h5_od.error);
+    }
+
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(h5_status,
                                                     hdf5_group_id,
                                                     ref_path,
-- 
2.43.0


From e516f2e9e8c14b69bf2efb3237737c03bbb4f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 28/97] fix: report failed allocations instead of using a NULL
 buffer

---
 src/libs/conduit/conduit_node.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 8300e15..ad698c1 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17396,6 +17396,14 @@ Node::allocate(index_t dsize)
 {
     m_data = utils::conduit_allocate((size_t)dsize, (size_t)1, m_allocator_id);
     //  calloc((size_t)dsize,(size_t)1);
+    if(m_data == NULL && dsize != 0)
+    {
+        // leave a valid empty node behind, callers may already have
+        // changed the schema
+        reset();
+        CONDUIT_ERROR("<Node::allocate> failed to allocate "
+                      << dsize << " bytes");
+    }
     m_data_size = dsize;
     m_alloced   = true;
     m_mmaped    = false;
-- 
2.43.0


From c75cfa2649c461de6bf00e2a70ec06bc63ab9b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 29/97] fix: a copy that fails part way leaves a consistent
 node

---
 src/libs/conduit/conduit_node.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index ad698c1..aca3fdc 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -494,8 +494,9 @@ Node::set_node(const Node &node)
             curr_node->set_allocator(m_allocator_id);
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(this);
-            curr_node->set(*node.m_children[idx]);
+            // add before copying, the copy may throw
             this->append_node_ptr(curr_node);
+            curr_node->set(*node.m_children[idx]);
         }
     }
     else if(node.dtype().id() == DataType::LIST_ID)
@@ -510,8 +511,9 @@ Node::set_node(const Node &node)
             curr_node->set_allocator(m_allocator_id);
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(this);
-            curr_node->set(*node.m_children[i]);
+            // add before copying, the copy may throw
             this->append_node_ptr(curr_node);
+            curr_node->set(*node.m_children[i]);
         }
     }
     else if (node.dtype().id() != DataType::EMPTY_ID)
-- 
2.43.0


From 243f568dc0965ec9f98e36fabb0f93772795dab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 30/97] fix: children created by compact_to use the
 destination's allocator

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index aca3fdc..c90a92a 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8515,7 +8515,7 @@ Node::compact_to(Node &n_dest) const
     uint8 *n_dest_data = (uint8*)n_dest.m_data;
     compact_to(n_dest_data,0);
     // need node structure
-    walk_schema(&n_dest,n_dest.m_schema,n_dest_data,m_allocator_id);
+    walk_schema(&n_dest,n_dest.m_schema,n_dest_data,n_dest.m_allocator_id);
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 376667a5cf9fdf3e9bdcfe0dbda8baed022248ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:35 +0000
Subject: [PATCH 31/97] fix: setting fewer values in place does not read past
 the source array

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c90a92a..6a241fd 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -949,7 +949,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -971,7 +971,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -993,7 +993,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1015,7 +1015,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1041,7 +1041,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1063,7 +1063,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1085,7 +1085,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1107,7 +1107,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1132,7 +1132,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1154,7 +1154,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1180,7 +1180,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1200,7 +1200,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1216,7 +1216,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1236,7 +1236,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1251,7 +1251,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1271,7 +1271,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1286,7 +1286,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1306,7 +1306,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1321,7 +1321,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1341,7 +1341,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1356,7 +1356,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1376,7 +1376,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1396,7 +1396,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From 7ea9b1060699b7a5194801f7195b7b0c56e67520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:53 +0000
Subject: [PATCH 32/97] fix: setting a vector in place respects the node's
 stride

---
 src/libs/conduit/conduit_node.cpp | 230 +++++++++++++++++++++---------
 1 file changed, 161 insertions(+), 69 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 6a241fd..d56a944 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1507,9 +1507,13 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(int8),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(int8)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1524,9 +1528,13 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(int16),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(int16)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1541,9 +1549,13 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(int32),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(int32)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1558,9 +1570,13 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(int64),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(int64)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1579,9 +1595,13 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(uint8),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(uint8)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1596,9 +1616,13 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(uint16),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(uint16)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1613,9 +1637,13 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(uint32),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(uint32)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1630,9 +1658,13 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(uint64),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(uint64)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1651,9 +1683,13 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(float32),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(float32)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1669,9 +1705,13 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(float64),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(float64)); // src stride
 }
 
 //---------------------------------------------------------------------------//
@@ -1691,9 +1731,13 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(char),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(char)); // src stride
 }
 
 //-----------------------------------------------------------------------------
@@ -1703,9 +1747,13 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(signed char),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(signed char)); // src stride
 }
 
 //-----------------------------------------------------------------------------
@@ -1713,9 +1761,13 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(unsigned char),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(unsigned char)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1728,9 +1780,13 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(short),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(short)); // src stride
 }
 
 //-----------------------------------------------------------------------------
@@ -1738,9 +1794,13 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(unsigned short),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(unsigned short)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1753,9 +1813,13 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(int),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(int)); // src stride
 }
 
 //-----------------------------------------------------------------------------
@@ -1763,9 +1827,13 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(unsigned int),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(unsigned int)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1778,9 +1846,13 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(long),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(long)); // src stride
 }
 
 //-----------------------------------------------------------------------------
@@ -1788,9 +1860,13 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(unsigned long),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(unsigned long)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1803,9 +1879,13 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(long long),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(long long)); // src stride
 }
 
 //-----------------------------------------------------------------------------
@@ -1813,9 +1893,13 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(unsigned long long),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(unsigned long long)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1828,9 +1912,13 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(float),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(float)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1843,9 +1931,13 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    // the node may be (external) strided data that is set in place
+    utils::conduit_memcpy_strided_elements(element_ptr(0),            // dest
+                                           data.size(),               // num ele
+                                           sizeof(double),  // ele bytes
+                                           (size_t)dtype().stride(),  // dest stride
+                                           data.data(),               // src
+                                           sizeof(double)); // src stride
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From 6871a39f2c2f1a581517cb0db0d247a7e6b1e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 33/97] fix: Node::swap and move update the parent of the
 swapped children

---
 src/libs/conduit/conduit_node.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d56a944..911719f 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8883,7 +8883,15 @@ Node::swap(Node &n_b)
     std::swap(m_allocator_id,n_b.m_allocator_id);
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
-
+    // the children now belong to the other node
+    for(size_t i = 0; i < m_children.size(); i++)
+    {
+        m_children[i]->set_parent(this);
+    }
+    for(size_t i = 0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->set_parent(&n_b);
+    }
 }
 
 
-- 
2.43.0


From 9a4a2b12b9f58062ad78bf0108abf2dda99aa352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 34/97] fix: Node::remove reports an invalid index

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 911719f..f614985 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14845,6 +14845,12 @@ Node::remove(index_t idx)
     // schema. b/c the child pointer uses the schema
     // to cleanup
 
+    if( ((size_t) idx) >= m_children.size())
+    {
+        CONDUIT_ERROR("<Node::remove> Invalid child index: " << idx <<
+                      " (number of children: " << m_children.size() << ")");
+    }
+
     // remove the proper list entry
     delete m_children[(size_t)idx];
     m_schema->remove(idx);
-- 
2.43.0


From ef452a627f524c2e7dbc534ac2b410b07808103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:54 +0000
Subject: [PATCH 35/97] fix: a failing fetch, and a fetch of a parent's path,
 leave the node as it was

---
 src/libs/conduit/conduit_node.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index f614985..5ead3c7 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14611,12 +14611,6 @@ Node::fetch_existing(const std::string &path)
 Node&
 Node::fetch(const std::string &path)
 {
-    // fetch w/ path forces OBJECT_ID
-    if(!dtype().is_object())
-    {
-        init(DataType::object());
-    }
-
     if(path.empty())
     {
         CONDUIT_ERROR("Cannot fetch empty path string");
@@ -14645,6 +14639,12 @@ Node::fetch(const std::string &path)
         }
     }
 
+    // fetch w/ path forces OBJECT_ID
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     // if this node doesn't exist yet, we need to create it and
     // link it to a schema
 
-- 
2.43.0


From a719083047e3ee11824ed42036b861dca9bfff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 36/97] fix: list_of_external drops the old entries of a list

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5ead3c7..e5a6f35 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14948,7 +14948,7 @@ Node::list_of_external(void *data,
                        const Schema &schema,
                        index_t num_entries)
 {
-    release();
+    reset();
     init_list();
 
     Schema s_compact;
-- 
2.43.0


From 9f5040992f35527231c8463b874d1e5a63b74bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:17 +0000
Subject: [PATCH 37/97] fix: Node::swap of two children of the same node keeps
 both schemas

---
 src/libs/conduit/conduit_node.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index e5a6f35..cffb3dd 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8826,40 +8826,46 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // as we swap, we need to make sure the parent schemas are updated
+    // find both indices first: the nodes may have the same parent
+    index_t idx_a = -1;
+    index_t idx_b = -1;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
         // find index in parent schema
-        Schema *a_parent_schema = schema_a->parent();
-        index_t idx = a_parent_schema->child_index(schema_a);
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_a = schema_a->parent()->child_index(schema_a);
+        if(idx_a < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in this Node's parent.");
         }
-
-        a_parent_schema->children()[idx] = schema_b;
     }
 
     // check if node b has a parent Node
     if(n_b.parent() != NULL)
     {
         // find index in parent schema
-        Schema *b_parent_schema = schema_b->parent();
-        index_t idx = b_parent_schema->child_index(schema_b);
-
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_b = schema_b->parent()->child_index(schema_b);
+        if(idx_b < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in passed Node's parent.");
 
         }
+    }
 
-        b_parent_schema->children()[idx] = schema_a;
+    if(idx_a >= 0)
+    {
+        schema_a->parent()->children()[idx_a] = schema_b;
+    }
+
+    if(idx_b >= 0)
+    {
+        schema_b->parent()->children()[idx_b] = schema_a;
     }
 
     // swap-o-rama
-- 
2.43.0


From 92ff2c4fb145701e4a4294db25c28bb35de763f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:52 +0000
Subject: [PATCH 38/97] fix: a zero byte allocation that yields NULL does not
 make later external data freed

---
 src/libs/conduit/conduit_node.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index cffb3dd..d72f69e 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17559,10 +17559,14 @@ Node::release()
     m_children.clear();
 
     // clean up any allocated or mmaped buffers
-    if(m_alloced && m_data)
+    if(m_alloced)
     {
-        // clean up our storage
-        utils::conduit_free(m_data, m_allocator_id);
+        // clean up our storage (NULL: an allocator may return it
+        // for zero bytes)
+        if(m_data != NULL)
+        {
+            utils::conduit_free(m_data, m_allocator_id);
+        }
         m_data = NULL;
         m_data_size = 0;
         m_alloced   = false;
-- 
2.43.0


From d0ad2c897b0af0ac1fdc92759615ca888264159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:47 +0000
Subject: [PATCH 39/97] fix: a node can be set to itself, one of its
 descendants or ancestors

---
 src/libs/conduit/conduit_node.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d72f69e..bbd7b9e 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -478,6 +478,31 @@ Node::mmap(const std::string &stream_path,
 void
 Node::set_node(const Node &node)
 {
+    if(this == &node)
+    {
+        return;
+    }
+
+    // if one of the nodes is part of the other, changing this node
+    // changes or destroys the source: copy the source first
+    bool related = false;
+    for(const Node *n = node.m_parent; n != NULL && !related; n = n->m_parent)
+    {
+        related = (n == this);
+    }
+    for(const Node *n = m_parent; n != NULL && !related; n = n->m_parent)
+    {
+        related = (n == &node);
+    }
+    if(related)
+    {
+        Node n_copy;
+        n_copy.set_allocator(m_allocator_id);
+        n_copy.set_node(node);
+        swap(n_copy);
+        return;
+    }
+
     if(node.dtype().id() == DataType::OBJECT_ID)
     {
         reset();
-- 
2.43.0


From a3f967b407b29306ae77922fc2e37eda44c0e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:09 +0000
Subject: [PATCH 40/97] fix: a strided data type without elements spans no
 bytes

---
 src/libs/conduit/conduit_data_type.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..3ac92d4 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -656,6 +656,12 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
+    // nothing is spanned without elements (the formula below would
+    // give a negative size for strided types)
+    if(m_num_ele == 0)
+    {
+        return 0;
+    }
     return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
 }
 
-- 
2.43.0


From bf9d314f38b8fcd49b233c16b1ea946400c12e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:00 +0000
Subject: [PATCH 41/97] fix: parallel flatten takes coordset and axis names
 from ranks that have data

Ranks without domains were counted as cartesian, and spherical axes were
never recognised, so a non-cartesian mesh with an empty rank (or any
spherical mesh) made the root rank throw while the others waited in
MPI_Gatherv. With an empty root rank the vertex column was always called
coords.
---
 .../conduit_blueprint_mpi_mesh_flatten.cpp    | 63 +++++++++----------
 .../conduit_blueprint_mpi_mesh_flatten.hpp    |  2 +-
 2 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
index 1b84ef8..c8bc449 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
@@ -436,44 +436,40 @@ ParallelMeshFlattener::gather_global_mesh_metadata(const MeshInfo &my_info,
     MPI_Gather(my_counts.data(), my_counts.size(), mtype, out.counts.data(),
         my_counts.size(), mtype, root, comm);
 
-    // Lastly root needs an educated guess at dimension names.
-    index_t my_axes = 0;
-    if(my_info.axes.size() > 1)
+    // Lastly root needs the names of the coordset and its axes. Ranks without
+    // data have no say: root uses its own names, or else those of the first
+    // rank that does have data.
+    Node my_names, all_names;
+    if(rank_has_data(my_info))
     {
-        if(my_info.axes[0] == blueprint::mesh::utils::CYLINDRICAL_AXES[0])
+        my_names["cset_name"].set(my_info.cset_name);
+        for(const std::string &axis : my_info.axes)
         {
-            my_axes = 1;
-            if(my_info.axes[1] == blueprint::mesh::utils::SPHERICAL_AXES[1])
-            {
-                my_axes = 2;
-            }
-        }
-        else if(my_info.axes[0] == blueprint::mesh::utils::LOGICAL_AXES[0])
-        {
-            my_axes = 3;
+            my_names["axes"].append().set(axis);
         }
     }
-    // Prefer cartesian
-    index_t g_axes = 0;
-    MPI_Reduce(&my_axes, &g_axes, 1, mtype, MPI_MIN, root, comm);
+    relay::mpi::gather_using_schema(my_names, all_names, root, comm);
 
     if(rank == root)
     {
-        // Translate the int to the actual string vector
-        switch(g_axes)
+        out.axes = blueprint::mesh::utils::CARTESIAN_AXES;
+        out.cset_name = "coords";
+        const Node *names = &all_names[root];
+        for(index_t i = 0; i < all_names.number_of_children()
+                           && !names->has_child("cset_name"); i++)
+        {
+            names = &all_names[i];
+        }
+
+        if(names->has_child("cset_name"))
         {
-        case 1:
-            out.axes = blueprint::mesh::utils::CYLINDRICAL_AXES;
-            break;
-        case 2:
-            out.axes = blueprint::mesh::utils::SPHERICAL_AXES;
-            break;
-        case 3:
-            out.axes = blueprint::mesh::utils::LOGICAL_AXES;
-            break;
-        default: // 0
-            out.axes = blueprint::mesh::utils::CARTESIAN_AXES;
-            break;
+            out.cset_name = names->fetch_existing("cset_name").as_string();
+            const Node &n_axes = names->fetch_existing("axes");
+            for(index_t i = 0; i < n_axes.number_of_children()
+                               && i < (index_t)out.axes.size(); i++)
+            {
+                out.axes[i] = n_axes[i].as_string();
+            }
         }
 
         out.nverts = 0;
@@ -706,7 +702,7 @@ ParallelMeshFlattener::make_local_allocations(const MeshInfo &info,
 //-----------------------------------------------------------------------------
 void
 ParallelMeshFlattener::make_root_allocations(const MeshMetaData &mdata,
-    const FieldInfo &fi, const MeshInfo &my_info, Node &output) const
+    const FieldInfo &fi, Node &output) const
 {
     DEBUG_PRINT("Rank " << rank << " - make_root_allocations" << std::endl);
     output.reset();
@@ -718,7 +714,7 @@ ParallelMeshFlattener::make_root_allocations(const MeshMetaData &mdata,
     // Allocate cset output
     if(this->add_vertex_locations)
     {
-        Node &cset_values = vertex_values[my_info.cset_name];
+        Node &cset_values = vertex_values[mdata.cset_name];
         for(index_t d = 0; d < mdata.dimension; d++)
         {
             allocate_column(cset_values[mdata.axes[d]],
@@ -859,8 +855,7 @@ ParallelMeshFlattener::flatten_many_domains(const Node &mesh, Node &output) cons
     }
     else
     {
-        make_root_allocations(global_metadata, global_field_info,
-            my_mesh_info, output);
+        make_root_allocations(global_metadata, global_field_info, output);
     }
 
     DEBUG_PRINT("Rank " << rank << output.schema().to_json() << std::endl);
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.hpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.hpp
index 0f30912..f5a4093 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.hpp
@@ -80,6 +80,7 @@ protected:
         index_t dimension;
         std::vector<index_t> counts;
         std::vector<std::string> axes;
+        std::string cset_name;
         index_t nverts;
         index_t nelems;
 
@@ -116,7 +117,6 @@ protected:
 
     void make_root_allocations(const MeshMetaData &global_meta_data,
         const FieldInfo &global_field_info,
-        const MeshInfo &my_info,
         Node &output) const;
 
     virtual void cleanup_output(Node &output) const override;
-- 
2.43.0


From 390e909b45f07c66800345580c93503bb268a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:22 +0000
Subject: [PATCH 42/97] fix: mpi distribute no longer loops forever on a domain
 without destinations

The iterator's ONE step does not advance while its MANY index is at the
front, so a map entry of size zero (a domain to drop) was visited for
ever.
---
 .../blueprint/conduit_blueprint_mpi_mesh_distribute.cpp   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
index 8dc9582..3d4aa3a 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
@@ -134,15 +134,17 @@ distribute(const conduit::Node &mesh,
     int tag = 422000; // unique tag start for distribute
 
     // full walk
-    while(o2m_iter.has_next(conduit::blueprint::o2mrelation::DATA))
-    // for( int i = 0; i < o2m_rel.size(); i++)
+    // (loop over ONE by count: an entry with no destinations must not stop
+    //  the iterator from moving on to the next one)
+    const index_t num_entries = o2m_iter.elements(conduit::blueprint::o2mrelation::ONE);
+    for(index_t i = 0; i < num_entries; i++)
     {
-        int i = o2m_iter.next(conduit::blueprint::o2mrelation::ONE);
         // i is domain id
         // check if we have domain w/ domain id == i
         // if so we will send
         bool have_domain = local_domain_ids.find(i) != local_domain_ids.end();
         // loop over all dests for domain i
+        o2m_iter.to(i,conduit::blueprint::o2mrelation::ONE);
         o2m_iter.to_front(conduit::blueprint::o2mrelation::MANY);
         while(o2m_iter.has_next(conduit::blueprint::o2mrelation::MANY))
         // for (int j = 0; j < o2m_rel.size(i); j++)
-- 
2.43.0


From 49095b81adce7f6d7bfea8a400ffa0a619128eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:31 +0000
Subject: [PATCH 43/97] fix: O2MIterator applies every entry of indices, not
 only the first of a group

sizes and offsets refer to entries in indices, as O2MIndex does; the
iterator used indices[offset] + j, which is only right for consecutive
indices.
---
 .../blueprint/conduit_blueprint_o2mrelation_iterator.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..e296daf 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,12 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
-        if(m_indices_node)
+        // note: sizes and offsets refer to entries in indices
+        index = offset + (many_index - 1);
+        if(m_indices_node && index >= 0)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            index = m_indices_node->as_index_t_accessor()[index];
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0


From c3d9161d0d2993a7c28ad54a45ce3b93bc693412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:48 +0000
Subject: [PATCH 44/97] fix: domain to rank map of a mesh without domains is
 empty

The output kept whatever it held before the call (and the address of the
first entry of an empty vector was taken).
---
 src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 25a82d2..3cc5f6d 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -201,6 +201,14 @@ void generate_domain_to_rank_map(const conduit::Node &mesh,
     max_global.set_int64(-1);
     relay::mpi::max_all_reduce(max_local, max_global, comm);
 
+    if(max_global.as_int64() < 0)
+    {
+        // no domains anywhere, so nothing to map
+        domain_to_rank_map.reset();
+        domain_to_rank_map.set(DataType::int64(0));
+        return;
+    }
+
     std::vector<int64> local_map(max_global.as_int64() + 1, -1);
     for(auto m_itr = local_domains.begin(); m_itr != local_domains.end(); ++m_itr)
     {
-- 
2.43.0


From d2bc5b889d7e68ec21861e7e346e7d2e93bfad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:22 +0000
Subject: [PATCH 45/97] fix: flatten accepts domains without fields

fields are optional in a mesh, but flatten threw for a domain that has
none; in parallel that left the other ranks waiting.
---
 .../blueprint/conduit_blueprint_mesh_flatten.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index e5ec91c..cb8c86e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -724,6 +724,11 @@ MeshFlattener::get_fields_to_flatten(const Node &mesh,
         for(index_t i = 0; i < ndomains; i++)
         {
             const Node &domain = mesh[i];
+            // fields are optional
+            if(!domain.has_child("fields"))
+            {
+                continue;
+            }
             const Node &fields = domain["fields"];
             auto itr = fields.children();
             while(itr.has_next())
@@ -753,6 +758,11 @@ MeshFlattener::get_reference_field(const Node &mesh,
     const index_t ndomains = mesh.number_of_children();
     for(index_t i = 0; i < ndomains; i++)
     {
+        // fields are optional
+        if(!mesh[i].has_child("fields"))
+        {
+            continue;
+        }
         const Node &fields = mesh[i]["fields"];
         if(fields.has_child(field_name))
         {
@@ -1148,7 +1158,11 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
         }
     }
 
-    // Add fields to their respective tables
+    // Add fields to their respective tables (fields are optional)
+    if(!mesh.has_child("fields"))
+    {
+        return;
+    }
     const Node &fields = mesh["fields"];
 #ifdef DEBUG_MESH_FLATTEN
     std::cout << "Domain[" << domain_id << "] fields to flatten:\n";
-- 
2.43.0


From bc8c8a8e992999ca14a5cbb8f0ec4603915eeac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:34 +0000
Subject: [PATCH 46/97] fix: partition honours the fields option as a list of
 names, also for whole domains

---
 .../conduit_blueprint_mesh_partition.cpp        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2ea3ddf..04e5ae5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1978,7 +1978,12 @@ Partitioner::initialize(const conduit::Node &n_mesh,
         selected_fields.clear();
         const conduit::Node &n_fields = options["fields"];
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
-            selected_fields.push_back(n_fields[i].name());
+        {
+            // The option is a list of strings.
+            const conduit::Node &n_field = n_fields[i];
+            selected_fields.push_back(n_field.dtype().is_string() ?
+                                      n_field.as_string() : n_field.name());
+        }
     }
 
     // Get whether we want to preserve old numbering of vertices, elements.
@@ -3667,7 +3672,13 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
         {
             const conduit::Node &f = n_fields[i];
-            n_new_fields[f.name()].set_external_node(f);
+            if(selected_fields.empty() ||
+               std::find(selected_fields.begin(),
+                         selected_fields.end(),
+                         f.name()) != selected_fields.end())
+            {
+                n_new_fields[f.name()].set_external_node(f);
+            }
         }
     }
 
@@ -4297,7 +4308,7 @@ Partitioner::execute(conduit::Node &output)
             // maps to it without changing the input mesh.
             const conduit::Node* assoc_aset = nullptr;
             conduit::Node* wrapped_adjset = nullptr;
-            if(mapping || meshes[i]->has_child("adjsets"))
+            if(mapping || meshes[i]->has_child("adjsets") || !selected_fields.empty())
             {
                 conduit::Node *c = wrap(i, *meshes[i]);
                 chunks.push_back(Chunk(c, true, dr, dd));
-- 
2.43.0


From 7cbe0bf675d114d118d58230609eb79a77bacaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:04 +0000
Subject: [PATCH 47/97] fix: partition with a target beyond the number of
 elements ends and makes no empty domains

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp    | 11 +++++++++--
 .../blueprint/conduit_blueprint_mesh_partition.hpp    |  3 ++-
 .../conduit_blueprint_mpi_mesh_partition.cpp          |  8 +++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 04e5ae5..d089d2a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2072,15 +2072,17 @@ Partitioner::count_targets() const
 void
 Partitioner::get_largest_selection(int &sel_rank, int &sel_index) const
 {
-    sel_rank = 0;
+    // Selections with a single element cannot be split, so they do not count.
+    sel_rank = -1;
     sel_index = -1;
-    long largest_selection_size = 0;
+    long largest_selection_size = 1;
     for(size_t i = 0; i < selections.size(); i++)
     {
         long ssize = static_cast<long>(selections[i]->length(*meshes[i]));
         if(ssize > largest_selection_size)
         {
             largest_selection_size = ssize;
+            sel_rank = rank;
             sel_index = static_cast<int>(i);
         }
     }
@@ -2118,6 +2120,11 @@ Partitioner::split_selections()
             int sel_rank = -1, sel_index = -1;
             get_largest_selection(sel_rank, sel_index);
 
+            // No rank has a selection that can be split further, so there
+            // are fewer elements than the target asks for.
+            if(sel_rank < 0)
+                break;
+
             if(rank == sel_rank)
             {
                 auto ps = selections[sel_index]->partition(*meshes[sel_index]);
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 97aceb3..7fdc82e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -377,7 +377,8 @@ protected:
             is to allow really large selections to be split more than once 
             before other selections are considered.
 
-     @param[out] sel_rank The rank that contains the largest selection.
+     @param[out] sel_rank The rank that contains the largest selection, or -1
+                          if no selection can be split further.
      @param[out] sel_index The index of the largest selection on sel_rank.
 
      @note Reimplemented in parallel
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index f911b27..03f34f6 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -255,9 +255,15 @@ ParallelPartitioner::get_largest_selection(int &sel_rank, int &sel_index) const
     MPI_Allreduce(&largest_selection, &global_largest_selection,
                   1, MPI_LONG_INT, MPI_MAXLOC, comm);
 
+    // A selection with a single element cannot be split. All ranks see the
+    // same value so they all stop here.
+    sel_rank = -1;
+    sel_index = -1;
+    if(global_largest_selection.value <= 1)
+        return;
+
     // MPI found us the rank that has the largest selection.
     sel_rank = global_largest_selection.rank;
-    sel_index = -1;
 
     // If we're on that rank, determine the local selection index.
     if(sel_rank == rank)
-- 
2.43.0


From 55fc92de3b0e40a8fd760d64045af0ae88ce7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:30 +0000
Subject: [PATCH 48/97] fix: splitting a ranges selection at a range of one
 element leaves no part empty

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index d089d2a..8426da9 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1145,8 +1145,10 @@ SelectionRanges::partition(const conduit::Node &n_mesh) const
             auto rc = (ranges[2*i+1] - ranges[2*i]) + 1;
             if(rc == 1)
             {
-                r0.push_back(ranges[2*i+0]);
-                r0.push_back(ranges[2*i+0]);
+                // The first part already has elements if it is not empty.
+                auto &r = r0.empty() ? r0 : r1;
+                r.push_back(ranges[2*i+0]);
+                r.push_back(ranges[2*i+0]);
             }
             else if(rc == 2)
             {
-- 
2.43.0


From 8ac783d1170d8273195de1649646ba83da4c436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 49/97] fix: partition output without fields has no empty
 fields node

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 8426da9..5b31ffc 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -4438,6 +4438,13 @@ Partitioner::execute(conduit::Node &output)
                 combine(*dom, this_dom_chunks, this_dom_cnkid, *new_dom);
             }
 
+            // An empty fields node would make the domain invalid.
+            if(new_dom->has_child("fields") &&
+               (*new_dom)["fields"].number_of_children() == 0)
+            {
+                new_dom->remove_child("fields");
+            }
+
             if (new_dom->has_child("adjsets"))
             {
                 merge_chunked_adjsets((*new_dom)["adjsets"], dest_domain);
-- 
2.43.0


From 3069f0aa408c43753d2d6489b0fa0edadc8a7faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 50/97] fix: extents of a uniform coordset keep the fraction of
 the origin

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cec1bed..e7863c3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1450,21 +1450,21 @@ coordset::extents(const Node &n)
         float64 min, max;
         if(csys_type == "uniform")
         {
-            index_t origin = 0;
+            float64 origin = 0.;
             float64 spacing = 1.0;
             index_t dim = n["dims"][LOGICAL_AXES[i]].to_index_t();
             if(n.has_child("origin")
                 && n["origin"].has_child(csys_axes[i]))
             {
-                origin = n["origin"][csys_axes[i]].to_index_t();
+                origin = n["origin"][csys_axes[i]].to_float64();
             }
             if(n.has_child("spacing")
                 && n["spacing"].has_child("d"+csys_axes[i]))
             {
                 spacing = n["spacing"]["d" + csys_axes[i]].to_float64();
             }
-            min = (float64)origin;
-            max = (float64)origin + (spacing * ((float64)dim - 1.));
+            min = origin;
+            max = origin + (spacing * ((float64)dim - 1.));
             if(spacing < 0.)
             {
                 std::swap(min, max);
-- 
2.43.0


From 2148a06977c40d8fbd55863998d2608a8047af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 51/97] fix: combining fields converts values when domains
 store a field with different types

---
 .../conduit_blueprint_mesh_partition.cpp      | 55 +++++++++++--------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 5b31ffc..6d03659 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -8776,6 +8776,31 @@ total_storage_size(const Node &in)
     return size;
 }
 
+//-------------------------------------------------------------------------
+/**
+ @brief Copy one value. The fields of different domains may have different
+        types, in which case the value is converted.
+ */
+static void
+copy_value(const Node &in, index_t in_idx, Node &out, index_t out_idx)
+{
+    if(in.dtype().id() == out.dtype().id())
+    {
+        memcpy(out.element_ptr(out_idx), in.element_ptr(in_idx),
+               out.dtype().element_bytes());
+    }
+    else if(in.dtype().is_integer() && out.dtype().is_integer())
+    {
+        int64_accessor out_values = out.as_int64_accessor();
+        out_values.set(out_idx, in.as_int64_accessor()[in_idx]);
+    }
+    else
+    {
+        float64_accessor out_values = out.as_float64_accessor();
+        out_values.set(out_idx, in.as_float64_accessor()[in_idx]);
+    }
+}
+
 //-------------------------------------------------------------------------
 static void
 map_vertex_field(const std::vector<const Node*> &in_nodes,
@@ -8848,17 +8873,13 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
                 const index_t out_idx = pmap[idx];
                 for(index_t ci = 0; ci < ncomps; ci++)
                 {
-                    const auto bytes = out_node[ci].dtype().element_bytes();
-                    void *out_data = out_node[ci].element_ptr(out_idx);
-                    const void *in_data = in_values[ci].element_ptr(idx);
-                    memcpy(out_data, in_data, bytes);
+                    copy_value(in_values[ci], idx, out_node[ci], out_idx);
                 }
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t fi = 0; fi < npmaps; fi++)
         {
             const auto &pmap = pointmaps[fi];
@@ -8866,9 +8887,7 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
             for(index_t idx = 0; idx < pmap.number_of_elements(); idx++)
             {
                 const index_t out_idx = pmap[idx];
-                void *out_data = out_node.element_ptr(out_idx);
-                const void *in_data = in_values.element_ptr(idx);
-                memcpy(out_data, in_data, bytes);
+                copy_value(in_values, idx, out_node, out_idx);
             }
         }
     }
@@ -8942,23 +8961,17 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
             const Node &in_values  = in_nodes[orig_dom]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
-                const auto bytes = out_node[ci].dtype().element_bytes();
-                void *out_data = out_node[ci].element_ptr(i);
-                const void *in_data = in_values[ci].element_ptr(orig_id);
-                memcpy(out_data, in_data, bytes);
+                copy_value(in_values[ci], orig_id, out_node[ci], i);
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t i = 0; i < num_vertices; i++)
         {
             const index_t orig_dom = orig_domains[i];
             const index_t orig_id  = orig_ids[i];
-            void *out_data = out_node.element_ptr(i);
-            const void *in_data = in_nodes[orig_dom]->child("values").element_ptr(orig_id);
-            memcpy(out_data, in_data, bytes);
+            copy_value(in_nodes[orig_dom]->child("values"), orig_id, out_node, i);
         }
     }
 }
@@ -9037,25 +9050,19 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
-                const auto bytes = out_node[ci].dtype().element_bytes();
-                void *out_data = out_node[ci].element_ptr(out_idx);
-                const void *in_data = data[ci].element_ptr(elem_idx);
-                memcpy(out_data, in_data, bytes);
+                copy_value(data[ci], elem_idx, out_node[ci], out_idx);
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t out_idx = 0; out_idx < nelements; out_idx++)
         {
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
             const Node &data = in_nodes[dom_idx]->child("values");
-            void *out_data = out_node.element_ptr(out_idx);
-            const void *in_data = data.element_ptr(elem_idx);
-            memcpy(out_data, in_data, bytes);
+            copy_value(data, elem_idx, out_node, out_idx);
         }
     }
 }
-- 
2.43.0


From fb1cb14d83164c3c6df909ba0162098c5125e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 52/97] fix: combining uniform domains places them by their
 exact origins

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 6d03659..c2474b4 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -6879,13 +6879,15 @@ private:
         const Node &n_sub_cset   = sub_mesh[cset_path];
         if(mode == CombineImplicitMode::Uniform)
         {
-            const auto worigin = mesh::utils::coordset::uniform::origin(n_whole_cset);
-            const auto sorigin = mesh::utils::coordset::uniform::origin(n_sub_cset);
+            // NOTE: the origins are floating point values, which
+            //  uniform::origin() truncates, so use the extents.
+            const auto wexts = mesh::utils::coordset::extents(n_whole_cset);
+            const auto sexts = mesh::utils::coordset::extents(n_sub_cset);
             const auto spacing = mesh::utils::coordset::uniform::spacing(n_whole_cset);
-            for(size_t i = 0; i < worigin.size(); i++)
+            for(size_t i = 0; i < spacing.size(); i++)
             {
-                const auto difference = sorigin[i] - worigin[i];
-                offsets.push_back(difference / spacing[i]);
+                const double difference = static_cast<double>(sexts[i*2]) - static_cast<double>(wexts[i*2]);
+                offsets.push_back(static_cast<index_t>(std::round(difference / spacing[i])));
             }
         }
         else if(mode == CombineImplicitMode::Rectilinear)
-- 
2.43.0


From 3233f5a0c8705a07739338ee13b0fee32730024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:06 +0000
Subject: [PATCH 53/97] fix: partition_map_back keeps the values of elements
 that were not selected

---
 .../conduit_blueprint_mesh_partition.cpp      | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index c2474b4..4228161 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9049,6 +9049,10 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            if(dom_idx < 0)
+            {
+                continue; // no input has this element.
+            }
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
@@ -9063,6 +9067,10 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            if(dom_idx < 0)
+            {
+                continue; // no input has this element.
+            }
             const Node &data = in_nodes[dom_idx]->child("values");
             copy_value(data, elem_idx, out_node, out_idx);
         }
@@ -10316,16 +10324,20 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
     communicate_mapback(packed_fields);
     for (const auto& orig_dom : packed_fields)
     {
-        // Precompute final element count
+        // Precompute the number of elements that the chunks refer to
         index_t nelems = 0;
         for (const Node& src_chunk : orig_dom.second.children())
         {
             DataArray<index_t> cnk_map = src_chunk["elem_map"].value();
-            nelems += cnk_map.number_of_elements();
+            for (index_t i = 0; i < cnk_map.number_of_elements(); i++)
+            {
+                nelems = std::max(nelems, cnk_map[i] + 1);
+            }
         }
 
         int cnk_id = 0;
-        vector<index_t> tgt_elem_map(nelems * 2);
+        // Elements that are not in the repartitioned mesh keep chunk id -1.
+        vector<index_t> tgt_elem_map(nelems * 2, -1);
         vector<DataArray<index_t>> tgt_vert_maps(orig_dom.second.number_of_children());
         unordered_map<string, vector<const Node*>> field_groups;
         for (const Node& src_chunk : orig_dom.second.children())
@@ -10348,13 +10360,6 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             tgt_vert_maps[cnk_id] = src_chunk["vert_map"].value();
             cnk_id++;
         }
-        // map_element_field expects a DataArray
-        DataArray<index_t> elem_map_arr;
-        {
-            Node tmp;
-            tmp.set_external(tgt_elem_map);
-            elem_map_arr = tmp.value();
-        }
         Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
         for (const auto& fg : field_groups)
         {
@@ -10376,6 +10381,17 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             }
             else if (assoc == "element")
             {
+                // Cover all elements of the original topology, also those that
+                // were not selected.
+                const index_t topo_nelems = topology::length(tgt_dom["topologies"][assoc_topo]);
+                if (topo_nelems > nelems)
+                {
+                    tgt_elem_map.resize(topo_nelems * 2, -1);
+                }
+                // map_element_field expects a DataArray
+                Node tmp;
+                tmp.set_external(tgt_elem_map);
+                const DataArray<index_t> elem_map_arr = tmp.value();
                 fields::map_element_field(src_fields, elem_map_arr, output["values"]);
             }
         }
-- 
2.43.0


From 5bcd147c8082606887ed1d4cdfdcc90360a0f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:33 +0000
Subject: [PATCH 54/97] fix: partition of domains without ids ends when a rank
 has no domains

---
 .../conduit_blueprint_mpi_mesh_partition.cpp          | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 03f34f6..c1613b9 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -99,6 +99,15 @@ ParallelPartitioner::get_global_domids(const conduit::Node& n_mesh)
         }
     }
 
+    // All ranks have to agree on whether there are domain ids, also those that
+    // have no domains.
+    {
+        int local_have_domids = have_domids ? 1 : 0, all_have_domids = 0;
+        MPI_Allreduce(&local_have_domids, &all_have_domids, 1, MPI_INT,
+                      MPI_MIN, comm);
+        have_domids = all_have_domids > 0;
+    }
+
     int64 prob_ndoms = 0;
     if (!have_domids)
     {
@@ -117,7 +126,7 @@ ParallelPartitioner::get_global_domids(const conduit::Node& n_mesh)
         }
         for (size_t idom = 0; idom < doms.size(); idom++)
         {
-            domids[idom] += offset;
+            domids[idom] = offset + idom;
         }
         prob_ndoms = std::accumulate(ndoms_all.begin(), ndoms_all.end(), 0);
     }
-- 
2.43.0


From 922db80f7d0b350ea285c591ecd859c29fff577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 55/97] fix: partition_map_back of vertex fields ends when a
 rank has no repartitioned domains

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp    | 11 +++++++++++
 .../blueprint/conduit_blueprint_mesh_partition.hpp    |  9 +++++++++
 .../conduit_blueprint_mpi_mesh_partition.cpp          |  9 +++++++++
 .../conduit_blueprint_mpi_mesh_partition.hpp          |  2 ++
 4 files changed, 31 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 4228161..51aa934 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2025,6 +2025,13 @@ Partitioner::initialize(const conduit::Node &n_mesh,
     return true; //!selections.empty();
 }
 
+//---------------------------------------------------------------------------
+bool
+Partitioner::any_rank(bool value) const
+{
+    return value;
+}
+
 //---------------------------------------------------------------------------
 std::vector<index_t>
 Partitioner::get_global_domids(const conduit::Node& n_mesh)
@@ -10151,6 +10158,10 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
         }
     }
 
+    // Mapping vertex fields communicates so all ranks have to agree on it, also
+    // those that have no domains.
+    has_vert_fields = any_rank(has_vert_fields);
+
     // Get a field prefix. Some of the mapping fields used here may have
     // used a field_prefix when they were generated.
     std::string field_prefix;
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 7fdc82e..3d45137 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -719,6 +719,15 @@ protected:
      */
     virtual void communicate_mapback(std::unordered_map<index_t, Node>& packed_fields);
 
+    /**
+     @brief Determine whether a condition is true on any rank.
+     @param value The value of the condition on this rank.
+     @return True if the condition holds on any rank.
+
+     @note Reimplemented in parallel
+     */
+    virtual bool any_rank(bool value) const;
+
     /**
      @brief During the field back-map, communicates global vertex id information
             to any ranks that need it for constructing the map-back vertex
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index c1613b9..5caecb5 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -825,6 +825,15 @@ ParallelPartitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets
 }
 
 //-----------------------------------------------------------------------------
+bool
+ParallelPartitioner::any_rank(bool value) const
+{
+    int local_value = value ? 1 : 0, global_value = 0;
+    MPI_Allreduce(&local_value, &global_value, 1, MPI_INT, MPI_MAX, comm);
+    return global_value > 0;
+}
+
+//---------------------------------------------------------------------------
 void
 ParallelPartitioner::communicate_mapback(std::unordered_map<index_t, Node>& packed_fields)
 {
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
index 791c7b4..a359a07 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
@@ -117,6 +117,8 @@ protected:
                                        const std::map<index_t, const Node*>& domain_map,
                                        std::vector<Node>& adjset_chunk_maps) override;
 
+    virtual bool any_rank(bool value) const override;
+
     virtual void communicate_mapback(std::unordered_map<index_t, Node>& packed_fields) override;
 
     virtual void synchronize_gvids(const std::vector<std::vector<index_t>>& remap_to_local_doms,
-- 
2.43.0


From 51fecaefff80f57fb6d51dfb2e114468d2edf987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:27 +0000
Subject: [PATCH 56/97] fix: partition_map_back of vertex fields uses a valid
 MPI tag

---
 .../blueprint/conduit_blueprint_mpi_mesh_partition.cpp   | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 5caecb5..50730ac 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -1036,7 +1036,10 @@ ParallelPartitioner::synchronize_gvids(
 
     std::vector<MPI_Request> pending_reqs(orig_doms_required.size()
                                           + domain_sends.size());
-    const int GVID_TAG = 227000;
+    // NOTE: A constant tag stays below the smallest MPI_TAG_UB that MPI permits
+    //       (32767). Each rank sends domains in the order in which the receiver
+    //       asked for them, which is the order in which it posts its receives.
+    const int GVID_TAG = 22700;
     int req_id = 0;
     // Start any receives of required domains
     for (index_t domid : orig_doms_required)
@@ -1050,7 +1053,7 @@ ParallelPartitioner::synchronize_gvids(
                   orig_dom_gvids[domid].size(),
                   index_mpi_dtype,
                   src_rnk,
-                  GVID_TAG + domid,
+                  GVID_TAG,
                   comm,
                   &pending_reqs[req_id]);
         req_id++;
@@ -1066,7 +1069,7 @@ ParallelPartitioner::synchronize_gvids(
                   orig_dom_gvids[domid].size(),
                   index_mpi_dtype,
                   dst_rank,
-                  GVID_TAG + domid,
+                  GVID_TAG,
                   comm,
                   &pending_reqs[req_id]);
         req_id++;
-- 
2.43.0


From a42830ea49fa86bca49deffb4babf38da8123d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 57/97] fix: a bad partition selection on one rank does not
 make the other ranks hang

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 51aa934..3a45c46 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1866,6 +1866,7 @@ Partitioner::initialize(const conduit::Node &n_mesh,
     // domains that were passed in to make a vector of meshes and selections
     // that can be used to partition the meshes.
     selections.clear();
+    bool selections_ok = true;
     if(options.has_child("selections"))
     {
         const conduit::Node &n_selections = options["selections"];
@@ -1932,14 +1933,16 @@ Partitioner::initialize(const conduit::Node &n_mesh,
                 else
                 {
                     CONDUIT_INFO("Could not initialize selection " << i);
-                    return false;
+                    selections_ok = false;
+                    break;
                 }
             }
             catch(const conduit::Error &e)
             {
                 CONDUIT_INFO("Exception thrown handling selection " << i
                      << ": " << e.message());
-                return false;
+                selections_ok = false;
+                break;
             }
         }
     }
@@ -1956,6 +1959,13 @@ Partitioner::initialize(const conduit::Node &n_mesh,
         }
     }
 
+    // The rest of the partitioner communicates so when the selections are bad
+    // on one rank, no rank can continue.
+    if(any_rank(!selections_ok))
+    {
+        return false;
+    }
+
     // Get the number of target partitions that we're making. We determine
     // whether the options contain a target in a method so we can override
     // it in parallel.
-- 
2.43.0


From 58e7733d4303c658983f9647553cc3ee779dc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:08 +0000
Subject: [PATCH 58/97] fix: partition builds the adjsets of partially selected
 meshes and of maxshare adjsets

---
 .../conduit_blueprint_mesh_partition.cpp      | 49 ++++++++++++++-----
 .../conduit_blueprint_mesh_partition.hpp      |  1 +
 .../conduit_blueprint_mpi_mesh_partition.cpp  | 27 +++++++---
 3 files changed, 59 insertions(+), 18 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 3a45c46..8e545b8 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -1866,6 +1866,9 @@ Partitioner::initialize(const conduit::Node &n_mesh,
     // domains that were passed in to make a vector of meshes and selections
     // that can be used to partition the meshes.
     selections.clear();
+    domain_meshes.clear();
+    for(size_t i = 0; i < doms.size(); i++)
+        domain_meshes[global_domids[i]] = doms[i];
     bool selections_ok = true;
     if(options.has_child("selections"))
     {
@@ -3867,6 +3870,7 @@ Partitioner::init_chunk_adjsets(const std::vector<const Node*>& chunk_assoc_adjs
         const std::string adjset_assoc = adjset["association"].as_string();
 
         Node& new_adjset = adjset_data[icnk]->fetch(adjset_name);
+        new_adjset["groups"].set(DataType::list());
         new_adjset["association"].set("vertex");
         new_adjset["topology"].set(adjset_topo);
     }
@@ -3903,15 +3907,22 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
         {
             continue;
         }
-        const ChunkToVertsMap& domain_chunks = chunks.find(&domain)->second;
+        // NOTE: There are no chunks when nothing is selected from the domain.
+        const auto domain_chunks_it = chunks.find(&domain);
+        const ChunkToVertsMap domain_chunks = (domain_chunks_it != chunks.end())
+            ? domain_chunks_it->second : ChunkToVertsMap();
+        // A chunk that has no vertex list is the whole domain.
+        const bool whole_domain = domain_chunks.size() == 1 &&
+                                  domain_chunks.begin()->second.empty();
         Node& dom_out = adjset_chunk_maps[dom_idx];
         // Create map of old vertex ids to chunk ids
         std::vector<std::vector<index_t>> vtx_to_cnkid;
         size_t max_verts = 0;
-        if (domain_chunks.size() != 1)
+        if (!whole_domain)
         {
             for (const auto& cnk : domain_chunks)
             {
+                if (cnk.second.empty()) { continue; }
                 // Ensure enough space is in the map this chunks vertices
                 max_verts = std::max<size_t>(max_verts, *(cnk.second.rbegin())+1);
                 vtx_to_cnkid.resize(max_verts);
@@ -3955,7 +3966,7 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
 
                 std::vector<index_t> offsets;
                 std::vector<index_t> csr_vtx_map;
-                if (vtx_to_cnkid.size() == 0)
+                if (whole_domain)
                 {
                     // single chunk comprises the whole domain
                     index_t dst_cnk = domain_chunks.begin()->first + chunk_offset;
@@ -3970,6 +3981,10 @@ Partitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets,
                     {
                         index_t old_vtx = adj_vals[i];
                         offsets.push_back(curr_offset);
+                        if (old_vtx >= static_cast<index_t>(vtx_to_cnkid.size()))
+                        {
+                            continue; // the vertex is not in any chunk
+                        }
                         curr_offset += vtx_to_cnkid[old_vtx].size();
                         csr_vtx_map.insert(csr_vtx_map.end(),
                                            vtx_to_cnkid[old_vtx].begin(),
@@ -4053,6 +4068,11 @@ Partitioner::build_interdomain_adjsets(const std::vector<int>& chunk_offsets,
 
                 // 2. Get map of points in corresponding adjset group in other domain.
                 const std::string this_key = std::to_string(dom_idx);
+                if (nbr_idx < 0 || nbr_idx >= static_cast<index_t>(dom_adjset_maps.size())
+                    || !dom_adjset_maps[nbr_idx].has_path(adjset_name + "/to_dom/" + this_key))
+                {
+                    continue; // the neighbor is not part of the input
+                }
                 const Node& other_group_map
                     = dom_adjset_maps[nbr_idx][adjset_name]["to_dom"][this_key];
 
@@ -4121,9 +4141,9 @@ Partitioner::build_interdomain_adjsets(const std::vector<int>& chunk_offsets,
                 Node& new_set = adjset_groups.append();
                 new_set["neighbors"].set(chunk_nbr);
                 new_set["values"].set(adjset.second);
-                // If we are not the only chunk in the local adjset, the values
-                // are relative to the original domain - flag for remap.
-                if (dom_2_chunks.find(&domain)->second.size() > 1)
+                // If the chunk is not the whole domain, the values are relative
+                // to the original domain - flag for remap.
+                if (!dom_2_chunks.find(&domain)->second.at(chunk_id).empty())
                 {
                     remap_to_chunk_vid[&domain][chunk_id].push_back(&new_set);
                 }
@@ -4241,6 +4261,7 @@ merge_chunked_adjsets(conduit::Node& dom_adjsets, const std::vector<int>& chunks
             new_adjset_doms[dst_dom][adj_ord] = &grp;
         }
         Node& new_grps = adjset["new_groups"];
+        new_grps.set(DataType::object());
         for (const auto& domain : new_adjset_doms)
         {
             // Add a new group, with a defined name.
@@ -4314,7 +4335,9 @@ Partitioner::execute(conduit::Node &output)
     // Maps each pre-load balance mesh domain to a set of vertex lists for each chunk.
     // This is used in constructing the intermediate chunk adjsets within a domain.
     DomainToChunkMap domain_to_chunk_map;
-    std::map<index_t, const conduit::Node*> domain_id_to_node;
+    // All local domains. We need those without selections since they can be
+    // neighbors of the domains that do have selections.
+    std::map<index_t, const conduit::Node*> domain_id_to_node(domain_meshes);
 
     for(size_t i = 0; i < selections.size(); i++)
     {
@@ -4338,7 +4361,8 @@ Partitioner::execute(conduit::Node &output)
             {
                 conduit::Node *c = wrap(i, *meshes[i]);
                 chunks.push_back(Chunk(c, true, dr, dd));
-                assoc_aset = get_associated_topo_adjset(*meshes[i], selections[i]->get_topology());
+                if(build_adjsets)
+                    assoc_aset = get_associated_topo_adjset(*meshes[i], selections[i]->selected_topology(*meshes[i]).name());
                 if (assoc_aset)
                 {
                     wrapped_adjset = c->fetch_ptr("adjsets");
@@ -4357,8 +4381,9 @@ Partitioner::execute(conduit::Node &output)
             std::vector<index_t> vert_ids;
             conduit::Node *c = extract(i, *meshes[i], vert_ids);
             chunks.push_back(Chunk(c, true, dr, dd));
-            const conduit::Node* assoc_aset
-                = get_associated_topo_adjset(*meshes[i], selections[i]->get_topology());
+            const conduit::Node* assoc_aset = nullptr;
+            if(build_adjsets)
+                assoc_aset = get_associated_topo_adjset(*meshes[i], selections[i]->selected_topology(*meshes[i]).name());
             chunk_assoc_aset.push_back(assoc_aset);
             if (assoc_aset)
             {
@@ -4385,7 +4410,9 @@ Partitioner::execute(conduit::Node &output)
     size_t nullCount = 0;
     for(const auto &value : adjset_data)
         nullCount += (value == nullptr) ? 1 : 0;
-    if(build_adjsets && nullCount < adjset_data.size())
+    // NOTE: All ranks take part if any does since a rank can have neighbors of
+    //       the selected domains even if nothing is selected on the rank.
+    if(build_adjsets && any_rank(nullCount < adjset_data.size()))
     {
         init_chunk_adjsets(chunk_assoc_aset, adjset_data);
         build_interdomain_adjsets(offsets, domain_to_chunk_map, domain_id_to_node, adjset_data);
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 3d45137..77f03dd 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -767,6 +767,7 @@ protected:
     int rank, size;
     unsigned int target;
     std::vector<const Node *>                meshes;
+    std::map<index_t, const Node *>          domain_meshes;
     std::vector<std::shared_ptr<Selection> > selections;
     std::vector<std::string>                 selected_fields;
     bool                                     mapping;
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 50730ac..ed5e7bd 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -778,13 +778,26 @@ ParallelPartitioner::get_prelb_adjset_maps(const std::vector<int>& chunk_offsets
             for (const Node& group : adjset["groups"].children())
             {
                 index_t_accessor neighbor_vals = group["neighbors"].as_index_t_accessor();
-                index_t dst_dom = neighbor_vals[0];
-                int nbr_rank = domain_to_rank_map[dst_dom];
-
-                // For each corresponding pair of domains linked by adjsets, we
-                // need a matched pair of send/recvs
-                send_rank[dom_idx].insert(nbr_rank);
-                recv_rank[dst_dom] = nbr_rank;
+                for (index_t ni = 0; ni < neighbor_vals.number_of_elements(); ni++)
+                {
+                    index_t dst_dom = neighbor_vals[ni];
+                    if (dst_dom < 0 ||
+                        dst_dom >= static_cast<index_t>(domain_to_rank_map.size()))
+                    {
+                        continue;
+                    }
+                    int nbr_rank = domain_to_rank_map[dst_dom];
+                    if (nbr_rank < 0 || nbr_rank == rank)
+                    {
+                        // No such domain, or we have its map already.
+                        continue;
+                    }
+
+                    // For each corresponding pair of domains linked by adjsets, we
+                    // need a matched pair of send/recvs
+                    send_rank[dom_idx].insert(nbr_rank);
+                    recv_rank[dst_dom] = nbr_rank;
+                }
             }
         }
     }
-- 
2.43.0


From 80cbfc7b0a60e0605576e327f1397e288e91386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:44 +0000
Subject: [PATCH 59/97] fix: root-only meshes with many domains can be reloaded
 from any directory

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 2fb3f9c..44b13c6 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -1662,7 +1662,8 @@ void write_mesh(const Node &mesh,
             else
             {
                 output_tree_pattern = "/domain_%06d/";
-                output_partition_pattern = root_filename + ":/domain_{domain:06d}";
+                // (the file pattern is relative to the root file's dir)
+                output_partition_pattern = output_file_pattern + ":/domain_{domain:06d}";
 
                 //generate part map (we only need domain for this case)
                 output_partition_map["domain"].set(DataType::index_t(global_num_domains));
-- 
2.43.0


From f95ab0408ace313c5d70f81e0e9a1dc26be091be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:44 +0000
Subject: [PATCH 60/97] fix: saving a single-domain mesh does not change the
 caller's domain id

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 44b13c6..872d984 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -700,6 +700,14 @@ bool clean_mesh(const conduit::Node &data,
     {
       conduit::Node &dest_dom = output.append();
       dest_dom.set_external(data);
+      // note: this algo may re-write domain ids
+      // so make sure this isn't set as external
+      if(dest_dom.has_path("state/domain_id"))
+      {
+          index_t dom_id = dest_dom["state/domain_id"].to_index_t();
+          dest_dom["state/domain_id"].reset();
+          dest_dom["state/domain_id"] = dom_id;
+      }
     }
   }
 
-- 
2.43.0


From e8a5e91e83236e87081946715c54b663716c3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:36 +0000
Subject: [PATCH 61/97] fix: yaml files whose values contain braces are not
 taken for json files

---
 src/libs/relay/conduit_relay_io_identify_protocol.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_identify_protocol.cpp b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
index 7b50ef6..ba4b069 100644
--- a/src/libs/relay/conduit_relay_io_identify_protocol.cpp
+++ b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
@@ -151,12 +151,17 @@ identify_file_type(const std::string &path,
             if(test_str.find("\n") != std::string::npos)
             {
                 // for yaml look for ":" 
-                // for json, look for "{"
-                if(test_str.find(":") != std::string::npos)
+                // for json, look for "{" 
+                // (yaml values may also contain "{", so it only
+                //  indicates json if it comes before any ":")
+                const size_t colon_pos = test_str.find(":");
+                const size_t brace_pos = test_str.find("{");
+                if(colon_pos != std::string::npos)
                 {
                    file_type = "yaml";
                 }
-                if(test_str.find("{") != std::string::npos)
+                if(brace_pos != std::string::npos &&
+                   (colon_pos == std::string::npos || brace_pos < colon_pos))
                 {
                    file_type = "json";
                 }
-- 
2.43.0


From 431a87725bb8d29db22d88686d94c94c9d73973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:50 +0000
Subject: [PATCH 62/97] fix: a parallel save of a mesh without domains is
 skipped on all ranks

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 872d984..29df344 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -987,7 +987,7 @@ void write_mesh(const Node &mesh,
 
     // reduce to check to see if any valid data exists
 
-    n_local = (int)cycle;
+    n_local = local_boolean;
     relay::mpi::sum_all_reduce(n_local,
                                n_reduced,
                                mpi_comm);
-- 
2.43.0


From 9cd506a2173a48c46134ab8ed6be5d42dd18b0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:41 +0000
Subject: [PATCH 63/97] fix: an I/O error on one rank fails a parallel mesh
 save on all ranks

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 107 ++++++++++++++----
 1 file changed, 84 insertions(+), 23 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 29df344..6a53c15 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -456,6 +456,33 @@ bool global_someone_agrees(bool vote
   return agreement;
 }
 
+//---------------------------------------------------------------------------//
+// Collective: when any rank reports a problem, all ranks throw an error.
+// (if only some ranks throw, the others wait for them forever)
+//---------------------------------------------------------------------------//
+void throw_if_any_failed(const std::string &local_error_msg,
+                         const std::string &what
+                         CONDUIT_RELAY_COMMUNICATOR_ARG(MPI_Comm mpi_comm))
+{
+    bool failed = !local_error_msg.empty();
+#ifdef CONDUIT_RELAY_IO_MPI_ENABLED
+    const int par_rank = relay::mpi::rank(mpi_comm);
+    failed = global_someone_agrees(failed, mpi_comm);
+#else
+    const int par_rank = 0;
+#endif
+    if(failed)
+    {
+        std::string emsg = what + " on one or more ranks.";
+        if(!local_error_msg.empty())
+        {
+            emsg += conduit_fmt::format(" Exception details from rank {}: {}.",
+                                        par_rank, local_error_msg);
+        }
+        CONDUIT_ERROR(emsg);
+    }
+}
+
 bool quick_mesh_check(const conduit::Node &n)
 {
     return n.has_child("topologies") &&
@@ -1211,6 +1238,9 @@ void write_mesh(const Node &mesh,
     // Other cases are simpler and are created when root file is written
     conduit::Node output_partition_map;
 
+    // used to make sure all ranks learn about I/O errors on any rank
+    std::string local_io_exception_msg = "";
+
     // at this point for file_style,
     // default has been resolved, we need to just handle:
     //   root_only, multi_file
@@ -1231,7 +1261,7 @@ void write_mesh(const Node &mesh,
 
         for(int current_writer=0; current_writer < par_size; current_writer++)
         {
-            if(par_rank == current_writer)
+            if(par_rank == current_writer) try
             {
                 relay::io::IOHandle hnd;
 
@@ -1274,9 +1304,13 @@ void write_mesh(const Node &mesh,
                     hnd.write(dom,mesh_path);
                 }
                 
-                // NOTE: local file handle goes out of scope here
-                // and data is committed to file for handles that write
-                // on close
+                // NOTE: data is committed to file here for handles that
+                // write on close
+                hnd.close();
+            }
+            catch(const std::exception &e)
+            {
+                local_io_exception_msg = e.what();
             }
 
         // Reduce to sync up (like a barrier) and solve first writer need
@@ -1287,13 +1321,19 @@ void write_mesh(const Node &mesh,
         #else
             global_root_file_created.set(local_root_file_created);
         #endif
+
+            // if any I/O errors happened stop and have all
+            // tasks bail out with an exception (to avoid hangs)
+            detail::throw_if_any_failed(local_io_exception_msg,
+                                        "Failed to write mesh data"
+                                        CONDUIT_RELAY_COMMUNICATOR_ARG(mpi_comm));
         }
     }
     else if(global_num_domains == num_files)
     {
         // write out each domain
         // writes are independent, so no baton here
-        for(int i = 0; i < local_num_domains; ++i)
+        for(int i = 0; i < local_num_domains && local_io_exception_msg.empty(); ++i)
         {
             const Node &dom = multi_dom.child(i);
             uint64 domain = dom["state/domain_id"].to_uint64();
@@ -1312,11 +1352,25 @@ void write_mesh(const Node &mesh,
                open_opts["mode"] = "wt";
             }
 
-            // open our handle
-            hnd.open(output_file, open_opts);
-            // write to  mesh name subpath
-            hnd.write(dom, opts_mesh_name);
+            try
+            {
+                // open our handle
+                hnd.open(output_file, open_opts);
+                // write to  mesh name subpath
+                hnd.write(dom, opts_mesh_name);
+                hnd.close();
+            }
+            catch(const std::exception &e)
+            {
+                local_io_exception_msg = e.what();
+            }
         }
+
+        // if any I/O errors happened have all tasks bail out
+        // with an exception (to avoid hangs)
+        detail::throw_if_any_failed(local_io_exception_msg,
+                                    "Failed to write mesh data"
+                                    CONDUIT_RELAY_COMMUNICATOR_ARG(mpi_comm));
     }
     else // more complex case, N domains to M files
     {
@@ -1404,8 +1458,6 @@ void write_mesh(const Node &mesh,
         books["local_all_is_good"].set_external(&local_all_is_good,1);
         books["global_all_is_good"].set_external(&global_all_is_good,1);
 
-        std::string local_io_exception_msg = "";
-
         while(another_twirl)
         {
             // update baton requests
@@ -1504,14 +1556,17 @@ void write_mesh(const Node &mesh,
                                 //              << output_file << " path " << path);
 
                                 hnd.write(dom, curr_path);
-                                
+                                // data is committed here for handles
+                                // that write on close
+                                hnd.close();
+
                                 // update status, we are done with this doman
                                 local_domain_status[d] = 0;
                             }
-                            catch(conduit::Error &e)
+                            catch(const std::exception &e)
                             {
                                 local_all_is_good = 0;
-                                local_io_exception_msg = e.message();
+                                local_io_exception_msg = e.what();
                             }
                         }
                     }
@@ -1793,19 +1848,25 @@ void write_mesh(const Node &mesh,
             open_opts["mode"] = "wt";
         }
 
-        hnd.open(root_filename, file_protocol, open_opts);
-        hnd.write(root);
-        hnd.close();
+        try
+        {
+            hnd.open(root_filename, file_protocol, open_opts);
+            hnd.write(root);
+            hnd.close();
+        }
+        catch(const std::exception &e)
+        {
+            local_io_exception_msg = e.what();
+        }
     }
 
-    // barrier at end of work to avoid file system race
+    // sync (like a barrier) at end of work to avoid file system race
     // (non root task could write the root file in write_mesh, 
     // but root task is always the one to read the root file
-    // in read_mesh.
-
-    #ifdef CONDUIT_RELAY_IO_MPI_ENABLED
-        MPI_Barrier(mpi_comm);
-    #endif
+    // in read_mesh. All tasks also learn if this failed.
+    detail::throw_if_any_failed(local_io_exception_msg,
+                                "Failed to write root file " + root_filename
+                                CONDUIT_RELAY_COMMUNICATOR_ARG(mpi_comm));
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 5b88fdbb80fe58754736ffe218d0d307e2912b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:28 +0000
Subject: [PATCH 64/97] fix: an I/O error while looking for an HDF5 path is not
 taken for an absent path

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 55 +++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index e625bc6..aa71c76 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -4265,9 +4265,60 @@ hdf5_has_path(hid_t hdf5_id,
     //
     //  a negative # in some cases when it doesn't exist, and in some cases
     //    where there is an error.
-    // For our cases, we treat 0 and negative as does not exist.
+    // For a negative value, we look at each part of the path, to make
+    // sure an I/O error isn't taken for a path that does not exist.
 
-    return (res > 0);
+    if(res >= 0)
+    {
+        return (res > 0);
+    }
+
+    std::string parent;
+    std::string curr, next(hdf5_path);
+    bool exists = false;
+    while(!next.empty())
+    {
+        std::string rest;
+        conduit::utils::split_path(next,curr,rest);
+        next = rest;
+        if(curr.empty())
+        {
+            continue;
+        }
+
+        const std::string child = parent.empty() ? curr : parent + "/" + curr;
+        res = H5Lexists(hdf5_id,child.c_str(),H5P_DEFAULT);
+        if(res < 0)
+        {
+            // things that aren't groups don't have children
+            const std::string obj = parent.empty() ? "." : parent;
+            int obj_res = H5Oexists_by_name(hdf5_id,obj.c_str(),H5P_DEFAULT);
+            hid_t obj_id = obj_res > 0 ? H5Oopen(hdf5_id,obj.c_str(),H5P_DEFAULT) : -1;
+            bool is_group = false;
+            if(CONDUIT_HDF5_VALID_ID(obj_id))
+            {
+                H5I_type_t obj_type = H5Iget_type(obj_id);
+                is_group = (obj_type == H5I_GROUP || obj_type == H5I_FILE);
+                H5Oclose(obj_id);
+            }
+
+            if(obj_res < 0 || is_group ||
+               (obj_res > 0 && !CONDUIT_HDF5_VALID_ID(obj_id)))
+            {
+                CONDUIT_ERROR("Error checking for HDF5 path: "
+                              << hdf5_id << ":" << hdf5_path);
+            }
+        }
+
+        exists = (res > 0);
+        if(!exists)
+        {
+            break;
+        }
+        parent = child;
+    }
+
+    return exists;
     // restore hdf5 error stack
 }
 
-- 
2.43.0


From 058b20784f65d44b1d44a85511faf0fbb3386e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:28 +0000
Subject: [PATCH 65/97] fix: any error reading a root file fails a parallel
 mesh load on all ranks

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 6a53c15..e8be8eb 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -2072,12 +2072,21 @@ void read_mesh(const std::string &root_file_path,
     // only read bp index on rank 0
     if(par_rank == 0)
     {
-        if(!read_root_blueprint_index(root_file_path,
-                                      opts,
-                                      root_node,
-                                      mesh_name,
-                                      error_oss))
+        try
+        {
+            if(!read_root_blueprint_index(root_file_path,
+                                          opts,
+                                          root_node,
+                                          mesh_name,
+                                          error_oss))
+            {
+                error = 1;
+            }
+        }
+        catch(const std::exception &e)
         {
+            // other ranks need to learn about this
+            error_oss << e.what();
             error = 1;
         }
     }
-- 
2.43.0


From 38e1da76bdf9e3d34df595c9a4326f623f2a5b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:47 +0000
Subject: [PATCH 66/97] fix: point queries work for domain ids that are not
 contiguous

---
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 1f9f7c6..3304497 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -85,12 +85,22 @@ PointQuery::execute(const std::string &coordsetName)
     MPI_Allreduce(&ndoms, &ntotal_doms, 1, MPI_INT, MPI_SUM, m_comm);
 
     // Make sure each rank knows who owns which domains. This assumes that
-    // the domains were set properly and only occur on one rank.
-    std::vector<int> local_domain_to_rank(ntotal_doms, 0);
-    std::vector<int> domain_to_rank(ntotal_doms, 0);
-    for(auto dom : localDomains)
-        local_domain_to_rank[dom] = rank;
-    MPI_Allreduce(&local_domain_to_rank[0], &domain_to_rank[0], ntotal_doms, MPI_INT, MPI_SUM, m_comm);
+    // the domains were set properly and only occur on one rank. The domain ids
+    // do not need to be contiguous.
+    std::vector<int> domain_counts(size, 0), domain_offsets(size, 0);
+    MPI_Allgather(&ndoms, 1, MPI_INT, &domain_counts[0], 1, MPI_INT, m_comm);
+    for(int i = 1; i < size; i++)
+        domain_offsets[i] = domain_offsets[i-1] + domain_counts[i-1];
+    std::vector<int> all_domains(ntotal_doms, 0);
+    MPI_Allgatherv(localDomains.data(), ndoms, MPI_INT,
+                   all_domains.data(), &domain_counts[0], &domain_offsets[0], MPI_INT,
+                   m_comm);
+    std::map<int, int> domain_to_rank;
+    for(int i = 0; i < size; i++)
+    {
+        for(int j = 0; j < domain_counts[i]; j++)
+            domain_to_rank[all_domains[domain_offsets[i] + j]] = i;
+    }
 
     // Put together the queries that we need to run.
     std::vector<int> queries;
@@ -127,7 +137,8 @@ PointQuery::execute(const std::string &coordsetName)
     debug["size"] = size;
     debug["localDomains"].set(localDomains);
     debug["ntotal_doms"] = ntotal_doms;
-    debug["domain_to_rank"].set(domain_to_rank);
+    debug["all_domains"].set(all_domains);
+    debug["domain_counts"].set(domain_counts);
     debug["queries"].set(queries);
     debug["nq"] = nq;
     debug["qsize"].set(qsize);
@@ -161,7 +172,7 @@ PointQuery::execute(const std::string &coordsetName)
     for(size_t i = 0; i < allqueries.size(); i += 3)
     {
         int domain = allqueries[i+1];
-        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()))
+        if(domain_to_rank.find(domain) == domain_to_rank.end())
         {
             CONDUIT_ERROR("An adjacency set referenced domain " << domain
                 << ", which is not a valid domain in the input mesh.");
-- 
2.43.0


From 7eea8255e3e7a7879bc94d23a85115dfc6f988b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:10 +0000
Subject: [PATCH 67/97] fix: repeated point queries of remote domains replace
 the previous results

---
 src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 3304497..e12c9df 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -293,6 +293,7 @@ PointQuery::execute(const std::string &coordsetName)
         const conduit::Node &r = it->second->fetch_existing("results");
         auto acc = r.as_int_accessor();
         std::vector<int> &result = m_domResults[domain];
+        result.clear();
         result.reserve(acc.number_of_elements());
         for(conduit::index_t i = 0; i < acc.number_of_elements(); i++)
             result.push_back(acc[i]);
-- 
2.43.0


From 60a8f088a7a06029bc92d0532f303f2c4a4c026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:06 +0000
Subject: [PATCH 68/97] fix: match queries between domains work when only one
 of them asks

---
 .../conduit_blueprint_mesh_utils.cpp          |  6 ++++--
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index e7863c3..e3b2bf5 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -4048,8 +4048,10 @@ MatchQuery::execute()
         auto oppit = m_query.find(oppositeKey);
         if(oppit == m_query.end())
         {
-            CONDUIT_ERROR("MatchQuery is missing the topology for "
-                << dom << ":" << query_domain);
+            // The query domain has no entities that could match.
+            it->second.results.assign(it->second.query_mesh["topologies/" +
+                m_topoName]["elements/sizes"].dtype().number_of_elements(), 0);
+            continue;
         }
 
         // Get both of the topologies.
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index e12c9df..fd264f4 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -24,6 +24,7 @@
 #endif
 
 #include <cstring>
+#include <set>
 
 //-----------------------------------------------------------------------------
 // -- begin conduit --
@@ -397,6 +398,12 @@ MatchQuery::execute()
                    &allqueries[0], &qsize[0], &qoffset[0], MPI_INT,
                    m_comm);
 
+    // The neighboring domain might not have asked about any entities of its own.
+    // In that case, there is nothing to exchange and there are no matches.
+    std::set<std::pair<int,int>> asked;
+    for(size_t i = 0; i < allqueries.size(); i += ntuple_values)
+        asked.insert(std::make_pair(allqueries[i + 1], allqueries[i + 2]));
+
     // Look up a rank that owns a domain.
     auto domain_to_rank = [=](const std::vector<int> &allqueries, int d) -> int
     {
@@ -462,7 +469,8 @@ MatchQuery::execute()
             // The query was asked by this rank. We need to prepare to
             // receive the opposite query, which is the answer.
 
-            if(m_query.find(oppositeKey) == m_query.end())
+            if(m_query.find(oppositeKey) == m_query.end() &&
+               asked.find(oppositeKey) != asked.end())
             {
                 int remote = domain_to_rank(allqueries, query_domain);
 
@@ -511,11 +519,18 @@ MatchQuery::execute()
             // Try and get the geometries.
             auto it = m_query.find(key);
             auto oppit = m_query.find(oppositeKey);
-            if(it == m_query.end() || oppit == m_query.end())
+            if(it == m_query.end())
             {
                 CONDUIT_ERROR("MatchQuery is missing the topologies for "
                     << domain << ":" << query_domain);
             }
+            if(oppit == m_query.end())
+            {
+                // The query domain has no entities that could match.
+                it->second.results.assign(it->second.query_mesh["topologies/" +
+                    m_topoName]["elements/sizes"].dtype().number_of_elements(), 0);
+                continue;
+            }
 
             // Get both of the topologies.
             conduit::Node &mesh1 = it->second.query_mesh;
-- 
2.43.0


From a8d857e243a1449796e883e4d851c99242bb1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:44 +0000
Subject: [PATCH 69/97] fix: adjset validation reports errors of unnamed and 2D
 domains and of bad element ids

---
 .../conduit_blueprint_mesh_utils.cpp          | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index e3b2bf5..07a29ed 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2266,7 +2266,8 @@ topology::search(const conduit::Node &topo1, const conduit::Node &topo2)
 
     // Get the query results for each mesh2 point. This is a vector of point
     // ids from mesh 1 or NotFound.
-    const auto &r = P.results(domain_id);
+    const std::vector<int> no_points;
+    const auto &r = (npts > 0) ? P.results(domain_id) : no_points;
 
     // Iterate over the entities in mesh2 and map their points to mesh 1 points
     // if possible before computing hashids for them. If a mesh2 entity's points
@@ -2276,7 +2277,7 @@ topology::search(const conduit::Node &topo1, const conduit::Node &topo2)
     {
         // Try and map all of the topo2 entity's points to topo1's coordset.
         // If we can do that then the entity may exist.
-        bool badEntity = false;
+        bool badEntity = topo2Ids.empty();
         std::vector<index_t> ids;
         ids.reserve(topo2Ids.size());
         for(const index_t &pt : topo2Ids)
@@ -2988,6 +2989,22 @@ adjset::validate(const conduit::Node &doms,
                             info, PQ, MQ, checkMultiDomain);
 }
 
+//---------------------------------------------------------------------------
+// Return the name under which a domain's errors are reported. Single domains
+// and domains in a list have no name.
+static std::string
+validate_domain_name(const conduit::Node &dom, index_t domain_id)
+{
+    std::string name(dom.name());
+    if(name.empty())
+    {
+        std::stringstream ss;
+        ss << "domain_" << domain_id;
+        name = ss.str();
+    }
+    return name;
+}
+
 //---------------------------------------------------------------------------
 bool
 adjset::validate(const conduit::Node &doms,
@@ -3122,15 +3139,16 @@ adjset::validate(const conduit::Node &doms,
             if(res[idx] == conduit::blueprint::mesh::utils::query::PointQuery::NotFound)
             {
                 retval = false;
-                std::string domainName(domains[domIdx]->name());
+                std::string domainName(validate_domain_name(*domains[domIdx], domain_id));
                 conduit::Node &vn = info[domainName][adjsetName][groupName].append();
 
                 std::stringstream ss;
                 ss << "Domain " << domain_id << " adjset " << adjsetName
                    << " group " << groupName
                    << ": vertex " << ptid
-                   << " (" << coord[0] << ", " << coord[1]
-                   << ", " << coord[2] << ") at index " << ptid
+                   << " (" << coord[0]
+                   << ", " << (coord.size() > 1 ? coord[1] : 0.)
+                   << ", " << (coord.size() > 2 ? coord[2] : 0.) << ") at index " << ptid
                    << " could not be located in neighbor domain "
                    << nbr << ".";
 
@@ -3217,7 +3235,7 @@ adjset::validate(const conduit::Node &doms,
             if(!MQ.exists(domain_id, nbr, eid))
             {
                 retval = false;
-                std::string domainName(domains[domIdx]->name());
+                std::string domainName(validate_domain_name(*domains[domIdx], domain_id));
                 conduit::Node &vn = info[domainName][adjsetName][groupName].append();
 
                 std::stringstream ss;
-- 
2.43.0


From 2a6a962d74a1758539f7ee397908d08bfb2ea2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:24 +0000
Subject: [PATCH 70/97] fix: parallel adjset validation accepts neighbors on
 other ranks

---
 .../conduit_blueprint_mesh_utils.cpp          |  8 ++-
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 62 +++++++++++++++++++
 2 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 07a29ed..c99c3d0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3052,6 +3052,9 @@ adjset::validate(const conduit::Node &doms,
         // point query.
         std::vector<std::tuple<index_t, index_t, index_t, index_t, size_t, std::string, std::vector<double>>> query_guide;
         std::map<std::pair<index_t,index_t>, bool> bidirectional;
+        std::set<index_t> localDomains;
+        for(size_t domIdx = 0; domIdx < domains.size(); domIdx++)
+            localDomains.insert(conduit::blueprint::mesh::utils::find_domain_id(*domains[domIdx]));
         for(size_t domIdx = 0; domIdx < domains.size(); domIdx++)
         {
             const auto dom = domains[domIdx];
@@ -3080,7 +3083,10 @@ adjset::validate(const conduit::Node &doms,
                     auto domainToNeighbor = std::make_pair(domainId, nbr);
                     auto neighborToDomain = std::make_pair(nbr, domainId);
                     bidirectional[domainToNeighbor] = true;
-                    if(bidirectional.find(neighborToDomain) == bidirectional.end())
+                    // In parallel, a remote neighbor's groups are not known here.
+                    // The parallel calling routine checks them.
+                    if((checkMultiDomain || localDomains.count(nbr) > 0) &&
+                       bidirectional.find(neighborToDomain) == bidirectional.end())
                         bidirectional[neighborToDomain] = false; // not yet found
 
                     // Point ids
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index fd264f4..722d0bb 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -58,6 +58,29 @@ namespace utils
 
 //-----------------------------------------------------------------------------
 // -- begin conduit::blueprint::mpi::mesh::utils::query --
+//-----------------------------------------------------------------------------
+// Gather the values from all ranks to all ranks. The values of rank i start at
+// offsets[i] and end before offsets[i+1].
+static void
+gather_ints(const std::vector<int> &values,
+            std::vector<int> &allvalues,
+            std::vector<int> &offsets,
+            MPI_Comm comm)
+{
+    int size = 1;
+    MPI_Comm_size(comm, &size);
+    int count = static_cast<int>(values.size());
+    std::vector<int> counts(size, 0);
+    MPI_Allgather(&count, 1, MPI_INT, &counts[0], 1, MPI_INT, comm);
+    offsets.assign(size + 1, 0);
+    for(int i = 0; i < size; i++)
+        offsets[i + 1] = offsets[i] + counts[i];
+    allvalues.assign(offsets[size], 0);
+    MPI_Allgatherv(const_cast<int *>(values.data()), count, MPI_INT,
+                   allvalues.data(), &counts[0], &offsets[0], MPI_INT,
+                   comm);
+}
+
 //-----------------------------------------------------------------------------
 namespace query
 {
@@ -658,6 +681,45 @@ adjset::validate(const Node &doms,
                  adjsetName, association, topologyName, coordsetName,
                  info, PQ, MQ, checkMultiDomain);
 
+    // Domains that are neighbors of each other can be on different ranks. Make
+    // sure that the neighbors of the local domains refer back to them.
+    if(association == "vertex")
+    {
+        std::vector<int> pairs;
+        for(const auto dom : domains)
+        {
+            if(!dom->has_path("adjsets/" + adjsetName + "/groups"))
+                continue;
+            const int domainId = static_cast<int>(conduit::blueprint::mesh::utils::find_domain_id(*dom));
+            const conduit::Node &groups = dom->fetch_existing("adjsets/" + adjsetName + "/groups");
+            for(conduit::index_t i = 0; i < groups.number_of_children(); i++)
+            {
+                const auto neighbors = groups[i].fetch_existing("neighbors").as_index_t_accessor();
+                for(conduit::index_t ni = 0; ni < neighbors.number_of_elements(); ni++)
+                {
+                    pairs.push_back(domainId);
+                    pairs.push_back(static_cast<int>(neighbors[ni]));
+                }
+            }
+        }
+        std::vector<int> allpairs, offsets;
+        gather_ints(pairs, allpairs, offsets, comm);
+        std::set<std::pair<int,int>> known;
+        for(size_t i = 0; i < allpairs.size(); i += 2)
+            known.insert(std::make_pair(allpairs[i], allpairs[i + 1]));
+        for(size_t i = 0; i < pairs.size(); i += 2)
+        {
+            if(known.find(std::make_pair(pairs[i + 1], pairs[i])) == known.end())
+            {
+                retval = false;
+                std::stringstream ss;
+                ss << "Domain " << pairs[i + 1] << " adjset " << adjsetName
+                   << " does not contain a group that references domain " << pairs[i] << ".";
+                info[adjsetName].append().set(ss.str());
+            }
+        }
+    }
+
     // Make sure all ranks agree on the answer.
     retval = agree(retval, comm);
     return retval;
-- 
2.43.0


From d75e6ca3624214e2060bf021ae481cb5ae8f2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:43 +0000
Subject: [PATCH 71/97] fix: parallel pointwise comparison of adjsets compares
 both sides of every interface

---
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 80 ++++++++++++-------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 722d0bb..49c655a 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -24,6 +24,8 @@
 #endif
 
 #include <cstring>
+#include <iterator>
+#include <map>
 #include <set>
 
 //-----------------------------------------------------------------------------
@@ -733,47 +735,66 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
     namespace bputils = conduit::blueprint::mesh::utils;
     std::vector<Node *> domains = conduit::blueprint::mesh::domains(mesh);
 
-    // Determine total number of domains.
-    conduit::Node nd_local, nd_total;
-    nd_local = static_cast<int>(domains.size());
-    relay::mpi::sum_all_reduce(nd_local, nd_total, comm);
-    int maxDomains = nd_total.to_int();
-    const int par_rank = relay::mpi::rank(comm);
-
-    // Figure out which MPI ranks own each domain.
-    conduit::Node n_domain2rank;
+    // Figure out which MPI ranks own each domain. The domain ids do not need
+    // to be contiguous.
+    std::vector<int> localDomains, allDomains, offsets;
+    for(const auto dom_ptr : domains)
+        localDomains.push_back(static_cast<int>(bputils::find_domain_id(*dom_ptr)));
+    gather_ints(localDomains, allDomains, offsets, comm);
+    std::map<int, int> domain2rank;
+    for(size_t r = 0; r + 1 < offsets.size(); r++)
     {
-        conduit::Node n_local(DataType::int32(maxDomains));
-        int *iptr = n_local.as_int_ptr();
-        memset(iptr, 0, sizeof(int) * maxDomains);
-        for(size_t i = 0; i < domains.size(); i++)
-        {
-            auto domainId = bputils::find_domain_id(*domains[i]);
-            iptr[domainId] = par_rank;
-        }
-        relay::mpi::sum_all_reduce(n_local, n_domain2rank, comm);
+        for(int i = offsets[r]; i < offsets[r + 1]; i++)
+            domain2rank[allDomains[i]] = static_cast<int>(r);
     }
-    const int *domain2rank = n_domain2rank.as_int_ptr();
 
     // Iterate over each of the possible adjset relationships. Not all of these
     // will have adjset groups.
     const int tag = 122;
-    for(int d0 = 0; d0 < maxDomains; d0++)
+    for(auto it0 = domain2rank.begin(); it0 != domain2rank.end(); it0++)
     {
-        for(int d1 = d0 + 1; d1 < maxDomains; d1++)
+        for(auto it1 = std::next(it0); it1 != domain2rank.end(); it1++)
         {
+            const int d0 = it0->first;
+            const int d1 = it1->first;
+
             // make the adjset group name.
             std::stringstream ss;
             ss << conduit::blueprint::mesh::adjset::group_prefix() << "_" << d0 << "_" << d1;
             std::string groupName(ss.str());
 
+            // Make sure that both domains have the group, or neither of them.
+            const std::string groupKey("adjsets/" + adjsetName + "/groups/" + groupName + "/values");
+            Node n_present, n_total;
+            int present = 0;
+            for(size_t i = 0; i < domains.size(); i++)
+            {
+                if((localDomains[i] == d0 || localDomains[i] == d1) && domains[i]->has_path(groupKey))
+                    present++;
+            }
+            n_present = present;
+            relay::mpi::sum_all_reduce(n_present, n_total, comm);
+            if(n_total.to_int() == 0)
+                continue;
+            if(n_total.to_int() == 1)
+            {
+                if(present == 1)
+                {
+                    info["adjset"] = adjsetName;
+                    info["group"] = groupName;
+                }
+                return false;
+            }
+
             // There are up to 2 local meshes and their corresponding remote mesh.
             relay::mpi::communicate_using_schema C(comm);
             conduit::Node localMesh[2], remoteMesh[2];
             int mi = 0;            
-            for(auto dom_ptr : domains)
+            for(size_t di = 0; di < domains.size(); di++)
             {
-                Node &domain = *dom_ptr;
+                Node &domain = *domains[di];
+                if(localDomains[di] != d0 && localDomains[di] != d1)
+                    continue;
 
                 // If the domain has the adjset, make a point mesh of its points
                 // that we can send to the neighbor.
@@ -800,14 +821,15 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
                     // Make the local point mesh.
                     B.execute(localMesh[mi], "point");
 
-                    // Get the neighbor for this group
-                    std::string nkey("adjsets/" + adjsetName + "/groups/" + groupName + "/neighbors");
-                    int neighbor = domain.fetch_existing(nkey).to_int();
+                    // The neighbor in this group is the other domain.
+                    const bool first = localDomains[di] == d0;
+                    const int remote = first ? it1->second : it0->second;
 
-                    // Send this local mesh to the neighbor.
-                    C.add_isend(localMesh[mi], domain2rank[neighbor], tag + mi);
+                    // Send this local mesh to the neighbor. Both domains might be
+                    // on the same rank so the 2 directions use different tags.
+                    C.add_isend(localMesh[mi], remote, tag + (first ? 0 : 1));
                     // That neighbor will have to send us a mesh too.
-                    C.add_irecv(remoteMesh[mi], domain2rank[neighbor], tag + mi);
+                    C.add_irecv(remoteMesh[mi], remote, tag + (first ? 1 : 0));
 
                     mi++;
                 }
-- 
2.43.0


From 33aa61efbef4795da9aed2e33e5fac6c08b15537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:15 +0000
Subject: [PATCH 72/97] fix: large point searches find points within the
 tolerance on both sides of a cut

---
 .../conduit_blueprint_mesh_kdtree.hpp         | 98 ++++++++-----------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp b/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp
index 530364b..d989aab 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp
@@ -153,7 +153,7 @@ private:
 
     int longest(const BoxType &b) const;
     void sortIndexRange(const RangeType &range, int dimension);
-    bool pointInBox(const PointType &pt, const BoxType &b) const;
+    conduit::index_t findPointInBox(const PointType &pt, conduit::index_t bp, const BoxType &b) const;
     bool pointEqual(const PointType &pt, conduit::index_t index) const;
     void printBox(std::ostream &os, const BoxType &b, const std::string &indent) const;
 private:
@@ -368,45 +368,50 @@ kdtree<Indexable, CoordinateType, NDIMS>::findPoint(const kdtree<Indexable, Coor
     std::cout << std::endl;
 #endif
     // Check whether the point is in the global bounding box.
-    if(pointInBox(pt, box))
+    bool inBox = !boxes.empty();
+    for(int i = 0; i < dims(); i++)
+        inBox &= (pt[i] >= box[i][0] - pointTolerance && pt[i] <= box[i][1] + pointTolerance);
+    if(inBox)
     {
-        // Iterate until we find a box that contains the point.
-        BoxType currentBox;
-        memcpy(currentBox, box, sizeof(BoxType));
-        conduit::index_t bp = 0, prevbp = 0;
-        while(boxes[bp].childOffset != NoChild)
-        {
-            // Cut the box to make 2 child boxes.
-            BoxType A, B;
-            cutBox(currentBox, boxes[bp].splitDimension, A, B);
-
-            // Determine which child box contains the point and set bp to that box.
-            prevbp = bp;
-            if(pointInBox(pt, A))
-            {
+        foundIndex = findPointInBox(pt, 0, box);
 #ifdef CONDUIT_DEBUG_KDTREE
-                std::cout << "    Point in A "; printBox(std::cout, A, "");
-                std::cout << " goes to box " << boxes[bp].childOffset << std::endl;
+        std::cout << "    Point " << ((foundIndex != NotFound) ? "found" : "not found") << std::endl;
 #endif
-                memcpy(currentBox, A, sizeof(BoxType));
-                bp = boxes[bp].childOffset;
-            }
-            else
-            {
-#ifdef CONDUIT_DEBUG_KDTREE
-                std::cout << "    Point in B "; printBox(std::cout, B, "");
-                std::cout << " goes to box " << (boxes[bp].childOffset+1) << std::endl;
-#endif
-                memcpy(currentBox, B, sizeof(BoxType));
-                bp = boxes[bp].childOffset + 1;
-            }
-        }
+    }
 #ifdef CONDUIT_DEBUG_KDTREE
-        std::cout << "    Search box: bp=" << prevbp << std::endl;
+    else
+    {
+        std::cout << "Point not in box!" << std::endl;
+    }
 #endif
-        // Check prevbp box for the points of interest.
-        conduit::index_t offset = boxes[prevbp].range.offset;
-        conduit::index_t size = boxes[prevbp].range.size;
+    return foundIndex;
+}
+
+//---------------------------------------------------------------------------
+template <typename Indexable, typename CoordinateType, int NDIMS>
+conduit::index_t
+kdtree<Indexable, CoordinateType, NDIMS>::findPointInBox(const kdtree<Indexable, CoordinateType, NDIMS>::PointType &pt,
+    conduit::index_t bp, const kdtree<Indexable, CoordinateType, NDIMS>::BoxType &b) const
+{
+    conduit::index_t foundIndex = NotFound;
+    if(boxes[bp].childOffset != NoChild)
+    {
+        // Cut the box to make 2 child boxes. A point that is within the tolerance
+        // of the cut can match points on either side of it.
+        const int dimension = boxes[bp].splitDimension;
+        BoxType A, B;
+        cutBox(b, dimension, A, B);
+        const CoordinateType mid = A[dimension][1];
+        if(pt[dimension] - pointTolerance < mid)
+            foundIndex = findPointInBox(pt, boxes[bp].childOffset, A);
+        if(foundIndex == NotFound && pt[dimension] + pointTolerance >= mid)
+            foundIndex = findPointInBox(pt, boxes[bp].childOffset + 1, B);
+    }
+    else
+    {
+        // Check the box for the points of interest.
+        conduit::index_t offset = boxes[bp].range.offset;
+        conduit::index_t size = boxes[bp].range.size;
         for(conduit::index_t i = 0; i < size && (foundIndex == NotFound); i++)
         {
             // This the index of the point we want to look at.
@@ -418,17 +423,7 @@ kdtree<Indexable, CoordinateType, NDIMS>::findPoint(const kdtree<Indexable, Coor
                 foundIndex = ptIdx;
             }
         }
-#ifdef CONDUIT_DEBUG_KDTREE
-        std::cout << "    Point " << ((found != NotFound) ? "found" : "not found") << std::endl;
-#endif
-
     }
-#ifdef CONDUIT_DEBUG_KDTREE
-    else
-    {
-        std::cout << "Point not in box!" << std::endl;
-    }
-#endif
     return foundIndex;
 }
 
@@ -453,7 +448,7 @@ void kdtree<Indexable, CoordinateType, NDIMS>::calculateExtents()
     for(int i = 0; i < dims(); i++)
     {
         box[i][0] = std::numeric_limits<CoordinateType>::max();
-        box[i][1] = std::numeric_limits<CoordinateType>::min();
+        box[i][1] = std::numeric_limits<CoordinateType>::lowest();
         for(size_t j = 0; j < coordlen; j++)
         {
             box[i][0] = std::min(box[i][0], coords[i][j]);
@@ -577,17 +572,6 @@ void kdtree<Indexable, CoordinateType, NDIMS>::sortIndexRange(
     }
 }
 
-//---------------------------------------------------------------------------
-template <typename Indexable, typename CoordinateType, int NDIMS>
-bool kdtree<Indexable, CoordinateType, NDIMS>::pointInBox(
-    const kdtree<Indexable, CoordinateType, NDIMS>::PointType &pt, const BoxType &b) const
-{
-    bool retval = true;
-    for(int i = 0; i < dims(); i++)
-        retval &= (pt[i] >= b[i][0] && pt[i] < b[i][1]);
-    return retval;
-}
-
 }
 //-----------------------------------------------------------------------------
 // -- end conduit::blueprint::mesh::utils --
-- 
2.43.0


From 1b32835c009646de9fe6f5931271e6983287d367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:05 +0000
Subject: [PATCH 73/97] fix: adjsets of derived topologies are valid for
 domains that share nothing

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f801220..4c25c97 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -2829,6 +2829,8 @@ generate_derived_entities(conduit::Node &mesh,
         dst_adjset.reset();
         dst_adjset["association"].set("element");
         dst_adjset["topology"].set(dst_topo_name);
+        // A domain might not share any entities.
+        dst_adjset["groups"].set(DataType::object());
     }
     CONDUIT_ANNOTATE_MARK_END("Setup");
 
@@ -3122,6 +3124,8 @@ generate_decomposed_entities(conduit::Node &mesh,
         // NOTE(JRC): Diff- different association (decomposed entity -> assoc: vertex)
         dst_adjset["association"].set("vertex");
         dst_adjset["topology"].set(dst_topo_name);
+        // A domain might not share any entities.
+        dst_adjset["groups"].set(DataType::object());
     }
     CONDUIT_ANNOTATE_MARK_END("Setup");
 
-- 
2.43.0


From 79a71dfec2bef661fdc16fce923e7089b73379cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:16 +0000
Subject: [PATCH 74/97] fix: adjsets of generated lines list all shared edges
 of 3D meshes

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 4c25c97..73570a0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -2882,6 +2882,12 @@ generate_derived_entities(conduit::Node &mesh,
         conduit::Node &domain_d2smap = *std::get<2>(doms_and_maps[di]);
         index_t_accessor d2s_sizes = domain_d2smap["sizes"].value();
 
+        // Entities of 2 elements are internal to the domain when they separate
+        // elements. Edges of 3D elements can have many elements in the domain and
+        // still be shared.
+        const bool duplicates_internal = bputils::ShapeType(dst_topo).dim + 1 >=
+                                         bputils::ShapeType(src_topo).dim;
+
         // {(entity id in topology): <(neighbor domain ids that contain this entity)>}
         for(index_t ei = 0; ei < dst_topo_len; ei++)
         {
@@ -2889,7 +2895,7 @@ generate_derived_entities(conduit::Node &mesh,
             // we don't want to include duplicated entities 
             // (that means they are internal to the domain)
             std::vector<index_t> entity_pidxs = bputils::topology::unstructured::points(dst_topo, ei);
-            if(d2s_sizes[ei] < 2 || entity_pidxs.size() == 1)
+            if(d2s_sizes[ei] < 2 || entity_pidxs.size() == 1 || !duplicates_internal)
             {
                 for(const auto &neighbor_pair : neighbor_pidxs_map)
                 {
-- 
2.43.0


From 468a2098b34e5c72a77f9d139d9d741a4a21b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:37 +0000
Subject: [PATCH 75/97] fix: adjsets of sides and centroids list only entities
 the neighbor has

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 42 ++++++++++++++++---
 src/libs/blueprint/conduit_blueprint_mesh.hpp | 20 +++++++++
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 16 +++++--
 3 files changed, 68 insertions(+), 10 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 73570a0..112785c 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -3561,7 +3561,8 @@ mesh::generate_centroids(conduit::Node& mesh,
                          const std::string& dst_topo_name,
                          const std::string& dst_cset_name,
                          conduit::Node& s2dmap,
-                         conduit::Node& d2smap)
+                         conduit::Node& d2smap,
+                         conduit::blueprint::mesh::utils::query::PointQueryBase &query)
 {
     const static auto identify_centroid = []
         (const bputils::TopologyMetadata &/*topo_data*/, const index_t ei, const index_t /*di*/)
@@ -3579,14 +3580,28 @@ mesh::generate_centroids(conduit::Node& mesh,
     const std::vector<index_t> centroid_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_centroid_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
-
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
         conduit::blueprint::mesh::topology::unstructured::generate_centroids, identify_centroid, centroid_dims,
         query);
 }
 
+//-----------------------------------------------------------------------------
+// NOTE: compatibility method.
+void
+mesh::generate_centroids(conduit::Node& mesh,
+                         const std::string& src_adjset_name,
+                         const std::string& dst_adjset_name,
+                         const std::string& dst_topo_name,
+                         const std::string& dst_cset_name,
+                         conduit::Node& s2dmap,
+                         conduit::Node& d2smap)
+{
+    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
+    generate_centroids(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
+                       s2dmap, d2smap, query);
+}
+
 
 //-----------------------------------------------------------------------------
 void
@@ -3596,7 +3611,8 @@ mesh::generate_sides(conduit::Node& mesh,
                      const std::string& dst_topo_name,
                      const std::string& dst_cset_name,
                      conduit::Node& s2dmap,
-                     conduit::Node& d2smap)
+                     conduit::Node& d2smap,
+                     conduit::blueprint::mesh::utils::query::PointQueryBase &query)
 {
     const static auto identify_side = []
         (const bputils::TopologyMetadata &topo_data, const index_t ei, const index_t di)
@@ -3631,14 +3647,28 @@ mesh::generate_sides(conduit::Node& mesh,
     const std::vector<index_t> side_dims = calculate_decomposed_dims(
         mesh, src_adjset_name, calculate_side_dims);
 
-    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
-
     generate_decomposed_entities(
         mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name, s2dmap, d2smap,
         conduit::blueprint::mesh::topology::unstructured::generate_sides, identify_side, side_dims,
         query);
 }
 
+//-----------------------------------------------------------------------------
+// NOTE: compatibility method.
+void
+mesh::generate_sides(conduit::Node& mesh,
+                     const std::string& src_adjset_name,
+                     const std::string& dst_adjset_name,
+                     const std::string& dst_topo_name,
+                     const std::string& dst_cset_name,
+                     conduit::Node& s2dmap,
+                     conduit::Node& d2smap)
+{
+    conduit::blueprint::mesh::utils::query::PointQueryBase query(mesh);
+    generate_sides(mesh, src_adjset_name, dst_adjset_name, dst_topo_name, dst_cset_name,
+                   s2dmap, d2smap, query);
+}
+
 //-----------------------------------------------------------------------------
 void
 mesh::generate_corners(conduit::Node& mesh,
diff --git a/src/libs/blueprint/conduit_blueprint_mesh.hpp b/src/libs/blueprint/conduit_blueprint_mesh.hpp
index daa81d1..1b1ac17 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.hpp
@@ -295,6 +295,16 @@ void CONDUIT_BLUEPRINT_API generate_faces(conduit::Node &mesh,
                                           conduit::Node& s2dmap,
                                           conduit::Node& d2smap);
 
+//-------------------------------------------------------------------------
+void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
+                                              const std::string& src_adjset_name,
+                                              const std::string& dst_adjset_name,
+                                              const std::string& dst_topo_name,
+                                              const std::string& dst_cset_name,
+                                              conduit::Node& s2dmap,
+                                              conduit::Node& d2smap,
+                                              conduit::blueprint::mesh::utils::query::PointQueryBase &query);
+
 //-------------------------------------------------------------------------
 void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
                                               const std::string& src_adjset_name,
@@ -304,6 +314,16 @@ void CONDUIT_BLUEPRINT_API generate_centroids(conduit::Node& mesh,
                                               conduit::Node& s2dmap,
                                               conduit::Node& d2smap);
 
+//-------------------------------------------------------------------------
+void CONDUIT_BLUEPRINT_API generate_sides(conduit::Node& mesh,
+                                          const std::string& src_adjset_name,
+                                          const std::string& dst_adjset_name,
+                                          const std::string& dst_topo_name,
+                                          const std::string& dst_cset_name,
+                                          conduit::Node& s2dmap,
+                                          conduit::Node& d2smap,
+                                          conduit::blueprint::mesh::utils::query::PointQueryBase &query);
+
 //-------------------------------------------------------------------------
 void CONDUIT_BLUEPRINT_API generate_sides(conduit::Node& mesh,
                                           const std::string& src_adjset_name,
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 3cc5f6d..1eebee3 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -2642,15 +2642,19 @@ generate_centroids(conduit::Node& mesh,
                    const std::string& dst_cset_name,
                    conduit::Node& s2dmap,
                    conduit::Node& d2smap,
-                   MPI_Comm /*comm*/)
+                   MPI_Comm comm)
 {
+    // Neighbor domains might have all of an entity's points but not the entity.
+    conduit::blueprint::mpi::mesh::utils::query::PointQuery Q(mesh, comm);
+
     conduit::blueprint::mesh::generate_centroids(mesh,
                                                  src_adjset_name,
                                                  dst_adjset_name,
                                                  dst_topo_name,
                                                  dst_cset_name,
                                                  s2dmap,
-                                                 d2smap);
+                                                 d2smap,
+                                                 Q);
 }
 
 
@@ -2663,15 +2667,19 @@ generate_sides(conduit::Node& mesh,
                const std::string& dst_cset_name,
                conduit::Node& s2dmap,
                conduit::Node& d2smap,
-               MPI_Comm /*comm*/)
+               MPI_Comm comm)
 {
+    // Neighbor domains might have all of an entity's points but not the entity.
+    conduit::blueprint::mpi::mesh::utils::query::PointQuery Q(mesh, comm);
+
     conduit::blueprint::mesh::generate_sides(mesh,
                                              src_adjset_name,
                                              dst_adjset_name,
                                              dst_topo_name,
                                              dst_cset_name,
                                              s2dmap,
-                                             d2smap);
+                                             d2smap,
+                                             Q);
 
 }
 
-- 
2.43.0


From 0df2b6694786dbe9cf143d0aa635766867eea420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:52 +0000
Subject: [PATCH 76/97] fix: hdf5_has_path reports an error that went away on
 the second look

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index aa71c76..2cdf9ba 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -4311,6 +4311,14 @@ hdf5_has_path(hid_t hdf5_id,
         }
 
         exists = (res > 0);
+        // all parents exist, so checking the path only fails for an I/O error
+        // (a later answer isn't reliable, even if the error went away)
+        if(res >= 0 && next.empty())
+        {
+            CONDUIT_ERROR("Error checking for HDF5 path: "
+                          << hdf5_id << ":" << hdf5_path);
+        }
+
         if(!exists)
         {
             break;
-- 
2.43.0


From 6098ff12a76315b5d3cd5f79022a4721b3afa547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:28 +0000
Subject: [PATCH 77/97] fix: generate_partition_field passes an uninitialized
 ncommonnodes on ranks without domains

---
 .../blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
index 73b5426..d4a5135 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
@@ -588,7 +588,7 @@ void generate_partition_field(conduit::Node &mesh,
         const Node &dom_topo = domains[0]->fetch("topologies")[0];
         topo_name = dom_topo.name();
     }
-    idx_t ncommonnodes;
+    idx_t ncommonnodes = 0;
     if ( options.has_child("parmetis_ncommonnodes") )
     {
         ncommonnodes = options["parmetis_ncommonnodes"].as_int();
@@ -603,6 +603,15 @@ void generate_partition_field(conduit::Node &mesh,
         ncommonnodes = conduit::blueprint::mesh::coordset::dims(coordset);
     }
 
+    // ranks without domains need to pass the same value as the others
+    {
+        int64 local_ncommonnodes = ncommonnodes;
+        int64 global_ncommonnodes = 0;
+        MPI_Allreduce(&local_ncommonnodes, &global_ncommonnodes, 1,
+                      MPI_INT64_T, MPI_MAX, comm);
+        ncommonnodes = static_cast<idx_t>(global_ncommonnodes);
+    }
+
     if( options.has_child("field_prefix") )
     {
         field_prefix = options["field_prefix"].as_string();
-- 
2.43.0


From cf3248bc8a44ba261aabfdf53eade1ef2c6f2607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:28 +0000
Subject: [PATCH 78/97] fix: global vertex ids: domain ids beyond the number of
 domains write past the domain map

---
 .../conduit_blueprint_mpi_mesh_parmetis.cpp   | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
index d4a5135..a4bf7ba 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
@@ -180,13 +180,25 @@ void generate_global_element_and_vertex_ids(conduit::Node &mesh,
     uint64_array local_num_verts_pri = local_info["num_verts_primary"].value();
     std::vector<std::unordered_map<uint64, int64>> dom_shared_nodes(domains.size());
 
-    int64 local_ndomains = static_cast<int64>(domains.size());
-    int64 global_ndomains;
-    MPI_Allreduce(&local_ndomains, &global_ndomains, 1,
-                  MPI_INT64_T, MPI_SUM, comm);
+    // domain ids are not necessarily 0 to number of domains - 1
+    int64 local_max_domid = -1;
+    if (adjset_name != "")
+    {
+        for (const Node *dom : domains)
+        {
+            if (dom->has_path("state/domain_id"))
+            {
+                local_max_domid = std::max(local_max_domid,
+                                           dom->fetch_existing("state/domain_id").to_int64());
+            }
+        }
+    }
+    int64 global_max_domid = -1;
+    MPI_Allreduce(&local_max_domid, &global_max_domid, 1,
+                  MPI_INT64_T, MPI_MAX, comm);
 
     // A map of global domain IDs to their rank.
-    std::vector<int64> dom_locs(global_ndomains, INT64_MAX);
+    std::vector<int64> dom_locs(global_max_domid + 1, INT64_MAX);
     // A map of local domain IDs to global domain IDs.
     std::vector<int64> global_domids(domains.size(), -1);
 
-- 
2.43.0


From df3f907975d5eb6e7f3fe13ae989287e403aa343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:28 +0000
Subject: [PATCH 79/97] fix: generate_partition_field throws for domains
 without adjsets and adds an empty one

---
 .../blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
index a4bf7ba..1f3a07f 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
@@ -399,6 +399,11 @@ void generate_global_element_and_vertex_ids(conduit::Node &mesh,
         for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
         {
             Node &dom = *domains[local_dom_idx];
+            if (!dom.has_child("adjsets"))
+            {
+                // nothing is shared with other domains
+                continue;
+            }
             int64 global_domid = global_domids[local_dom_idx];
             Node &verts_field = dom["fields"][field_prefix + "global_vertex_ids"];
             int64_array vert_ids_vals = verts_field["values"].value();
@@ -513,6 +518,11 @@ void generate_global_element_and_vertex_ids(conduit::Node &mesh,
         for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
         {
             Node &dom = *domains[local_dom_idx];
+            if (!dom.has_child("adjsets"))
+            {
+                // nothing is shared with other domains
+                continue;
+            }
             int64 global_domid = global_domids[local_dom_idx];
             Node &verts_field = dom["fields"][field_prefix + "global_vertex_ids"];
             int64_array vert_ids_vals = verts_field["values"].value();
-- 
2.43.0


From 35f8655805b0ee0ccdd4b3bd0a8c7874d30e5501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:06 +0000
Subject: [PATCH 80/97] fix: global vertex ids disagree between domains for
 pairwise adjsets

---
 .../conduit_blueprint_mpi_mesh_parmetis.cpp   | 310 ++++++++++--------
 1 file changed, 172 insertions(+), 138 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
index 1f3a07f..3fff9bb 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_parmetis.cpp
@@ -267,9 +267,16 @@ void generate_global_element_and_vertex_ids(conduit::Node &mesh,
                 uint64_accessor group_verts = group["values"].as_uint64_accessor();
                 for (index_t ivert = 0; ivert < group_verts.number_of_elements(); ivert++)
                 {
-                    shared_nodes[group_verts[ivert]] = (min_domain == global_domid
-                                                        ? -1
-                                                        : min_domain);
+                    // (a vertex can be in several groups, the lowest domain of
+                    //  all of them is the primary one)
+                    const int64 primary = (min_domain == global_domid
+                                           ? -1
+                                           : static_cast<int64>(min_domain));
+                    auto ent = shared_nodes.emplace(group_verts[ivert], primary).first;
+                    if (primary != -1 && (ent->second == -1 || primary < ent->second))
+                    {
+                        ent->second = primary;
+                    }
                 }
             }
             // Count the number of nodes that are shared and non-primary
@@ -388,178 +395,205 @@ void generate_global_element_and_vertex_ids(conduit::Node &mesh,
     if (adjset_name != "")
     {
         const int TAG_SHARED_NODE_SYNC = 175;
-        // map of groups -> global vtx ids
-        std::map<std::set<uint64>, std::vector<uint64>> groups_2_vids;
-        // map of rank -> sends to/recvs from that rank of global vtx ids for
-        // an adjset group
-        std::unordered_map<uint64, std::vector<std::set<uint64>>> pending_sends, pending_recvs;
-
-        // 1. First iterate through our local domains to prepare global vtx id
-        //    lists that we control
-        for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
+        // One round numbers all vertices whose primary domain lists the domain
+        // that needs the number. If an adjset does not list all neighbors,
+        // numbers travel on by one neighbor per round.
+        int64 unresolved = 1;
+        for (index_t round = 0; unresolved != 0 && round < global_num_doms; round++)
         {
-            Node &dom = *domains[local_dom_idx];
-            if (!dom.has_child("adjsets"))
+            // map of groups -> global vtx ids
+            std::map<std::set<uint64>, std::vector<uint64>> groups_2_vids;
+            // map of rank -> sends to/recvs from that rank of global vtx ids for
+            // an adjset group
+            std::unordered_map<uint64, std::vector<std::set<uint64>>> pending_sends, pending_recvs;
+
+            // 1. First iterate through our local domains to prepare global vtx id
+            //    lists that we control
+            for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
             {
-                // nothing is shared with other domains
-                continue;
-            }
-            int64 global_domid = global_domids[local_dom_idx];
-            Node &verts_field = dom["fields"][field_prefix + "global_vertex_ids"];
-            int64_array vert_ids_vals = verts_field["values"].value();
-            const Node& dom_aset = dom["adjsets"][adjset_name];
-
-            for (const Node& group : dom_aset["groups"].children())
-            {
-                uint64_accessor nbr_doms = group["neighbors"].as_uint64_accessor();
-                uint64 min_domain = global_domid;
-                std::set<uint64> sorted_nbrs;
-                sorted_nbrs.insert(global_domid);
-                for (index_t inbr = 0; inbr < nbr_doms.number_of_elements(); inbr++)
+                Node &dom = *domains[local_dom_idx];
+                if (!dom.has_child("adjsets"))
                 {
-                    min_domain = std::min(min_domain, nbr_doms[inbr]);
-                    sorted_nbrs.insert(nbr_doms[inbr]);
+                    // nothing is shared with other domains
+                    continue;
                 }
+                int64 global_domid = global_domids[local_dom_idx];
+                Node &verts_field = dom["fields"][field_prefix + "global_vertex_ids"];
+                int64_array vert_ids_vals = verts_field["values"].value();
+                const Node& dom_aset = dom["adjsets"][adjset_name];
 
-                uint64_accessor group_verts = group["values"].as_uint64_accessor();
-                if (static_cast<int64>(min_domain) == global_domid)
+                for (const Node& group : dom_aset["groups"].children())
                 {
-                    // This domain provides the actual vids
-                    std::vector<uint64> actual_vids(group_verts.number_of_elements());
-                    for (index_t ivert = 0; ivert < group_verts.number_of_elements(); ivert++)
-                    {
-                        actual_vids[ivert] = vert_ids_vals[group_verts[ivert]];
-                    }
-                    if (groups_2_vids.count(sorted_nbrs) > 0)
+                    uint64_accessor nbr_doms = group["neighbors"].as_uint64_accessor();
+                    uint64 min_domain = global_domid;
+                    std::set<uint64> sorted_nbrs;
+                    sorted_nbrs.insert(global_domid);
+                    for (index_t inbr = 0; inbr < nbr_doms.number_of_elements(); inbr++)
                     {
-                        CONDUIT_ERROR("Multiple primary domains?");
+                        min_domain = std::min(min_domain, nbr_doms[inbr]);
+                        sorted_nbrs.insert(nbr_doms[inbr]);
                     }
-                    groups_2_vids[sorted_nbrs] = std::move(actual_vids);
 
-                    // If any neighbor domains are off-rank, we need to send
-                    // our global vids to those ranks.
-                    for (uint64 nbr_dom : sorted_nbrs)
+                    uint64_accessor group_verts = group["values"].as_uint64_accessor();
+                    if (static_cast<int64>(min_domain) == global_domid)
                     {
-                        if (static_cast<int64>(nbr_dom) == global_domid)
+                        // This domain provides the actual vids
+                        std::vector<uint64> actual_vids(group_verts.number_of_elements());
+                        for (index_t ivert = 0; ivert < group_verts.number_of_elements(); ivert++)
                         {
-                            // skip source domain
-                            continue;
+                            actual_vids[ivert] = vert_ids_vals[group_verts[ivert]];
                         }
-                        const uint64 dst_rank = dom_locs[nbr_dom];
-                        if (static_cast<uint64>(par_rank) != dst_rank)
+                        if (groups_2_vids.count(sorted_nbrs) > 0)
                         {
-                            pending_sends[dst_rank].push_back(sorted_nbrs);
+                            CONDUIT_ERROR("Multiple primary domains?");
                         }
-                    }
-                }
-                else
-                {
-                    // We need primary domain data, which might not yet exist
-                    // on this rank. Prepare irecv if necessary.
-                    const uint64 src_rank = dom_locs[min_domain];
+                        groups_2_vids[sorted_nbrs] = std::move(actual_vids);
 
-                    if (static_cast<uint64>(par_rank) != src_rank)
+                        // If any neighbor domains are off-rank, we need to send
+                        // our global vids to those ranks.
+                        for (uint64 nbr_dom : sorted_nbrs)
+                        {
+                            if (static_cast<int64>(nbr_dom) == global_domid)
+                            {
+                                // skip source domain
+                                continue;
+                            }
+                            const uint64 dst_rank = dom_locs[nbr_dom];
+                            if (static_cast<uint64>(par_rank) != dst_rank)
+                            {
+                                pending_sends[dst_rank].push_back(sorted_nbrs);
+                            }
+                        }
+                    }
+                    else
                     {
-                        pending_recvs[src_rank].push_back(sorted_nbrs);
-                        groups_2_vids[sorted_nbrs].resize(group_verts.number_of_elements());
+                        // We need primary domain data, which might not yet exist
+                        // on this rank. Prepare irecv if necessary.
+                        const uint64 src_rank = dom_locs[min_domain];
+
+                        if (static_cast<uint64>(par_rank) != src_rank)
+                        {
+                            pending_recvs[src_rank].push_back(sorted_nbrs);
+                            groups_2_vids[sorted_nbrs].resize(group_verts.number_of_elements());
+                        }
                     }
                 }
             }
-        }
 
-        // 2. Do required communication asynchronously.
-        std::vector<MPI_Request> async_sends, async_recvs;
-        for (auto& it : pending_recvs)
-        {
-            const uint64 rank_from = it.first;
-            std::vector<std::set<uint64>>& recv_groups = it.second;
-            // Sort the groups to receive first. This gives us a consistent
-            // ordering of isends/irecvs
-            std::sort(recv_groups.begin(), recv_groups.end());
-
-            int group_idx = 0;
-            for (const std::set<uint64>& group : recv_groups)
-            {
-                index_t domid = *(group.begin());
-                const int tag = conduit::relay::mpi::safe_tag(TAG_SHARED_NODE_SYNC + domid * 100 + group_idx, comm);
-                async_recvs.push_back(MPI_Request{});
-                group_idx++;
-                std::vector<uint64>& recvbuf = groups_2_vids[group];
-                MPI_Irecv(recvbuf.data(), recvbuf.size(), MPI_UINT64_T,
-                          rank_from, tag, comm, &(*async_recvs.rbegin()));
-            }
-        }
-        for (auto& it : pending_sends)
-        {
-            const uint64 rank_to = it.first;
-            std::vector<std::set<uint64>>& send_groups = it.second;
-            // Sort the groups to send first. This gives us a consistent
-            // ordering of isends/irecvs
-            std::sort(send_groups.begin(), send_groups.end());
-
-            int group_idx = 0;
-            for (const std::set<uint64>& group : send_groups)
+            // 2. Do required communication asynchronously.
+            std::vector<MPI_Request> async_sends, async_recvs;
+            for (auto& it : pending_recvs)
             {
-                index_t domid = *(group.begin());
-                const int tag = conduit::relay::mpi::safe_tag(TAG_SHARED_NODE_SYNC + domid * 100 + group_idx, comm);
-                async_sends.push_back(MPI_Request{});
-                group_idx++;
-                std::vector<uint64>& sendbuf = groups_2_vids[group];
-                MPI_Isend(sendbuf.data(), sendbuf.size(), MPI_UINT64_T,
-                          rank_to, tag, comm, &(*async_sends.rbegin()));
+                const uint64 rank_from = it.first;
+                std::vector<std::set<uint64>>& recv_groups = it.second;
+                // Sort the groups to receive first. This gives us a consistent
+                // ordering of isends/irecvs
+                std::sort(recv_groups.begin(), recv_groups.end());
+
+                int group_idx = 0;
+                for (const std::set<uint64>& group : recv_groups)
+                {
+                    index_t domid = *(group.begin());
+                    const int tag = conduit::relay::mpi::safe_tag(TAG_SHARED_NODE_SYNC + domid * 100 + group_idx, comm);
+                    async_recvs.push_back(MPI_Request{});
+                    group_idx++;
+                    std::vector<uint64>& recvbuf = groups_2_vids[group];
+                    MPI_Irecv(recvbuf.data(), recvbuf.size(), MPI_UINT64_T,
+                              rank_from, tag, comm, &(*async_recvs.rbegin()));
+                }
             }
-        }
-        std::vector<MPI_Status> async_recv_statuses(async_recvs.size());
-        // Make sure all our irecvs have completed
-        MPI_Waitall(async_recvs.size(), async_recvs.data(), async_recv_statuses.data());
-
-        // 3. Finally, iterate through our local domains to remap any vertices
-        //    that have been numbered by another domain.
-        for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
-        {
-            Node &dom = *domains[local_dom_idx];
-            if (!dom.has_child("adjsets"))
+            for (auto& it : pending_sends)
             {
-                // nothing is shared with other domains
-                continue;
+                const uint64 rank_to = it.first;
+                std::vector<std::set<uint64>>& send_groups = it.second;
+                // Sort the groups to send first. This gives us a consistent
+                // ordering of isends/irecvs
+                std::sort(send_groups.begin(), send_groups.end());
+
+                int group_idx = 0;
+                for (const std::set<uint64>& group : send_groups)
+                {
+                    index_t domid = *(group.begin());
+                    const int tag = conduit::relay::mpi::safe_tag(TAG_SHARED_NODE_SYNC + domid * 100 + group_idx, comm);
+                    async_sends.push_back(MPI_Request{});
+                    group_idx++;
+                    std::vector<uint64>& sendbuf = groups_2_vids[group];
+                    MPI_Isend(sendbuf.data(), sendbuf.size(), MPI_UINT64_T,
+                              rank_to, tag, comm, &(*async_sends.rbegin()));
+                }
             }
-            int64 global_domid = global_domids[local_dom_idx];
-            Node &verts_field = dom["fields"][field_prefix + "global_vertex_ids"];
-            int64_array vert_ids_vals = verts_field["values"].value();
-            const Node& dom_aset = dom["adjsets"][adjset_name];
+            std::vector<MPI_Status> async_recv_statuses(async_recvs.size());
+            // Make sure all our irecvs have completed
+            MPI_Waitall(async_recvs.size(), async_recvs.data(), async_recv_statuses.data());
 
-            for (const Node& group : dom_aset["groups"].children())
+            // 3. Finally, iterate through our local domains to remap any vertices
+            //    that have been numbered by another domain.
+            for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
             {
-                uint64_accessor nbr_doms = group["neighbors"].as_uint64_accessor();
-                uint64 min_domain = global_domid;
-                std::set<uint64> sorted_nbrs;
-                sorted_nbrs.insert(global_domid);
-                for (index_t inbr = 0; inbr < nbr_doms.number_of_elements(); inbr++)
+                Node &dom = *domains[local_dom_idx];
+                if (!dom.has_child("adjsets"))
                 {
-                    min_domain = std::min(min_domain, nbr_doms[inbr]);
-                    sorted_nbrs.insert(nbr_doms[inbr]);
+                    // nothing is shared with other domains
+                    continue;
                 }
+                int64 global_domid = global_domids[local_dom_idx];
+                Node &verts_field = dom["fields"][field_prefix + "global_vertex_ids"];
+                int64_array vert_ids_vals = verts_field["values"].value();
+                const Node& dom_aset = dom["adjsets"][adjset_name];
 
-                uint64_accessor group_verts = group["values"].as_uint64_accessor();
-                if ( static_cast<int64>(min_domain) != global_domid)
+                for (const Node& group : dom_aset["groups"].children())
                 {
-                    // Remap higher-numbered domains with primary domain's
-                    // assigned global vtx ids
-                    const std::vector<uint64>& actual_vids = groups_2_vids[sorted_nbrs];
-                    if (static_cast<index_t>(actual_vids.size()) != group_verts.number_of_elements())
+                    uint64_accessor nbr_doms = group["neighbors"].as_uint64_accessor();
+                    uint64 min_domain = global_domid;
+                    std::set<uint64> sorted_nbrs;
+                    sorted_nbrs.insert(global_domid);
+                    for (index_t inbr = 0; inbr < nbr_doms.number_of_elements(); inbr++)
                     {
-                        CONDUIT_ERROR("mismatch in shared verts");
+                        min_domain = std::min(min_domain, nbr_doms[inbr]);
+                        sorted_nbrs.insert(nbr_doms[inbr]);
                     }
-                    for (index_t ivert = 0; ivert < static_cast<index_t>(actual_vids.size()); ivert++)
+
+                    uint64_accessor group_verts = group["values"].as_uint64_accessor();
+                    if ( static_cast<int64>(min_domain) != global_domid)
+                    {
+                        // Remap higher-numbered domains with primary domain's
+                        // assigned global vtx ids
+                        const std::vector<uint64>& actual_vids = groups_2_vids[sorted_nbrs];
+                        if (static_cast<index_t>(actual_vids.size()) != group_verts.number_of_elements())
+                        {
+                            CONDUIT_ERROR("mismatch in shared verts");
+                        }
+                        for (index_t ivert = 0; ivert < static_cast<index_t>(actual_vids.size()); ivert++)
+                        {
+                            if (dom_shared_nodes[local_dom_idx][group_verts[ivert]]
+                                == static_cast<int64>(min_domain))
+                            {
+                                vert_ids_vals[group_verts[ivert]] = actual_vids[ivert];
+                            }
+                        }
+                    }
+                }
+            }
+            std::vector<MPI_Status> async_send_statuses(async_sends.size());
+            // Make sure all our isends have completed
+            MPI_Waitall(async_sends.size(), async_sends.data(), async_send_statuses.data());
+
+            // count vertices still marked with the domain that numbers them
+            int64 local_unresolved = 0;
+            for(size_t local_dom_idx=0; local_dom_idx < domains.size(); local_dom_idx++)
+            {
+                const Node &dom = *domains[local_dom_idx];
+                if (dom.has_child("adjsets"))
+                {
+                    int64_accessor vids = dom["fields"][field_prefix + "global_vertex_ids"]["values"].value();
+                    for (index_t i = 0; i < vids.number_of_elements(); i++)
                     {
-                        vert_ids_vals[group_verts[ivert]] = actual_vids[ivert];
+                        if (vids[i] < 0) { local_unresolved++; }
                     }
                 }
             }
+            MPI_Allreduce(&local_unresolved, &unresolved, 1, MPI_INT64_T, MPI_SUM, comm);
         }
-        std::vector<MPI_Status> async_send_statuses(async_sends.size());
-        // Make sure all our isends have completed
-        MPI_Waitall(async_sends.size(), async_sends.data(), async_send_statuses.data());
     }
 }
 
-- 
2.43.0


From 421b0e4a6a80cacedc1b677ff361ef168dc96b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 81/97] fix: web sockets write to connections that were closed

---
 src/libs/relay/conduit_relay_web.cpp | 38 ++++++++++++++++++----------
 src/libs/relay/conduit_relay_web.hpp |  1 +
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/libs/relay/conduit_relay_web.cpp b/src/libs/relay/conduit_relay_web.cpp
index 46f654c..99c35fc 100644
--- a/src/libs/relay/conduit_relay_web.cpp
+++ b/src/libs/relay/conduit_relay_web.cpp
@@ -450,7 +450,8 @@ public:
 
 //-----------------------------------------------------------------------------
 WebSocket::WebSocket()
-: m_connection(NULL)
+: m_connection(NULL),
+  m_context(NULL)
 {
     // empty
 }
@@ -468,6 +469,11 @@ void
 WebSocket::set_connection(mg_connection *connection)
 {
     m_connection = connection;
+    if(m_connection != NULL)
+    {
+        // the context outlives the connection
+        m_context = mg_get_context(m_connection);
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -481,13 +487,7 @@ WebSocket::is_connected() const
 mg_context *
 WebSocket::context()
 {
-    struct mg_context *ctx  = NULL;
-    if(m_connection != NULL)
-    {
-        ctx = mg_get_context(m_connection);
-    }
-
-    return ctx;
+    return m_context;
 }
 
 //-----------------------------------------------------------------------------
@@ -530,15 +530,27 @@ WebSocket::send(const Node &data,
     // get the length of our  message data.
     size_t        msg_len = oss.str().size();
 
+    bool connected = false;
     lock_context();
     {
-        // send our message via civetweb's websocket interface
-        mg_websocket_write(m_connection,
-                           WEBSOCKET_OPCODE_TEXT,
-                           oss.str().c_str(),
-                           msg_len);
+        // the connection may have been closed by a server thread, it is only
+        // safe to use while we hold the context lock
+        connected = is_connected();
+        if(connected)
+        {
+            // send our message via civetweb's websocket interface
+            mg_websocket_write(m_connection,
+                               WEBSOCKET_OPCODE_TEXT,
+                               oss.str().c_str(),
+                               msg_len);
+        }
     }
     unlock_context();
+
+    if(!connected)
+    {
+        CONDUIT_WARN("attempt to write to bad websocket connection");
+    }
 }
 
 
diff --git a/src/libs/relay/conduit_relay_web.hpp b/src/libs/relay/conduit_relay_web.hpp
index 5ecc445..21c4fb2 100644
--- a/src/libs/relay/conduit_relay_web.hpp
+++ b/src/libs/relay/conduit_relay_web.hpp
@@ -216,6 +216,7 @@ private:
     void           set_connection(mg_connection *connection);
 
     mg_connection  *m_connection;
+    mg_context     *m_context;
 };
 
 
-- 
2.43.0


From e3a4e6d4bb4e6f862d26a53a02441a35da08c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 82/97] fix: waiting for a web socket misses connections and
 returns closed ones

---
 src/libs/relay/conduit_relay_web.cpp | 69 +++++++++-------------------
 1 file changed, 21 insertions(+), 48 deletions(-)

diff --git a/src/libs/relay/conduit_relay_web.cpp b/src/libs/relay/conduit_relay_web.cpp
index 99c35fc..ada7226 100644
--- a/src/libs/relay/conduit_relay_web.cpp
+++ b/src/libs/relay/conduit_relay_web.cpp
@@ -364,75 +364,48 @@ public:
         websocket(index_t ms_poll,
                   index_t ms_timeout)
         {
-            WebSocket *res = NULL;
-            
-            // check if an active websocket exists
-            m_server->lock_context();
+            WebSocket *res = active_websocket();
+
+            index_t ms_total = 0;
+
+            // a zero poll interval would never reach the timeout
+            if(ms_poll < 1)
             {
-                for(size_t i=0; i < m_sockets.size() && res == NULL; i++)
-                {
-                    if(m_sockets[i]->is_connected())
-                    {
-                        res = m_sockets[i];
-                    }
-                }
+                ms_poll = 1;
             }
-            m_server->unlock_context();
-            
+
             // if we don't have a websocket connected, wait for one
-            if(res == NULL)
+            while(res == NULL && ms_total <= ms_timeout)
             {
-                res = accept_websocket(ms_poll,ms_timeout);
+                utils::sleep(ms_poll);
+                ms_total += ms_poll;
+
+                res = active_websocket();
             }
-            
+
             return res;
         }
 
         //---------------------------------------------------------------------------//
-        // waits for a new websocket connection
+        // returns the first active websocket, or NULL if there is none
         //---------------------------------------------------------------------------//
         WebSocket *
-        accept_websocket(index_t ms_poll,
-                         index_t ms_timeout)
+        active_websocket()
         {
             WebSocket *res = NULL;
 
-            index_t ms_total = 0;
-            size_t  start_num_sockets = 0;
-            size_t  curr_num_sockets  = 0;
-
-            // check for bad or un-inited context
-            if(m_server->context() == NULL)
-            {
-                return NULL;
-            }
-
-            // we will need to lock the context while we check for new websocket
+            // we need to lock the context while we look at the websockets
             m_server->lock_context();
             {
-                start_num_sockets = m_sockets.size();
-            }
-            m_server->unlock_context();
-
-            curr_num_sockets = start_num_sockets;
-
-            while(curr_num_sockets == start_num_sockets && 
-                  ms_total <= ms_timeout)
-            {
-                utils::sleep(ms_poll);
-                ms_total += ms_poll;
-
-                m_server->lock_context();
+                for(size_t i=0; i < m_sockets.size() && res == NULL; i++)
                 {
-                    curr_num_sockets = m_sockets.size();
-                    if(curr_num_sockets != start_num_sockets)
+                    if(m_sockets[i]->is_connected())
                     {
-                        // we will return the last socket added
-                        res = m_sockets[curr_num_sockets-1];
+                        res = m_sockets[i];
                     }
                 }
-                m_server->unlock_context();
             }
+            m_server->unlock_context();
 
             return res;
         }
-- 
2.43.0


From 107b09f6ce0a45b29bb3dda141dddf453192ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 83/97] fix: waiting for a web socket of a server that is not
 running crashes

---
 src/libs/relay/conduit_relay_web.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_web.cpp b/src/libs/relay/conduit_relay_web.cpp
index ada7226..5fca174 100644
--- a/src/libs/relay/conduit_relay_web.cpp
+++ b/src/libs/relay/conduit_relay_web.cpp
@@ -782,6 +782,12 @@ WebSocket *
 WebServer::websocket(index_t ms_poll,
                      index_t ms_timeout)
 {
+    // there is nothing to wait for if the server was not started
+    if(m_dispatch == NULL)
+    {
+        return NULL;
+    }
+
     return m_dispatch->websocket(ms_poll,ms_timeout);
 }
 
@@ -819,6 +825,11 @@ WebServer::handler()
 mg_context *
 WebServer::context()
 {
+    if(m_server == NULL)
+    {
+        return NULL;
+    }
+
     // NOTE: casting away const here.
     return (struct mg_context *) m_server->getContext();
 }
@@ -848,8 +859,6 @@ WebServer::serve(bool block)
     }
     
     
-    m_dispatch = new CivetDispatchHandler(*this);
-
     bool use_ssl = m_ssl_cert_file.size() > 0;
     bool use_auth_domain = m_htpasswd_auth_domain.size() > 0;
     bool use_auth_file   = m_htpasswd_auth_file.size() > 0;
@@ -921,12 +930,16 @@ WebServer::serve(bool block)
     CONDUIT_INFO("Binding WebServer to " << addy_and_port 
                  << " with document root " << m_doc_root);
 
+    m_dispatch = new CivetDispatchHandler(*this);
+
     try
     {
         m_server = new CivetServer(options);
     }
     catch(CivetException& /*except*/)
     {
+        delete m_dispatch;
+        m_dispatch = NULL;
         // Catch Civet Exception and use Conduit's error handling mech.
         CONDUIT_ERROR("WebServer failed to bind civet server on " 
                       << addy_and_port);
-- 
2.43.0


From af028ae678dbbbe592e9df77cb29ca34a3b64ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 84/97] fix: stopping the web server from a request handler
 never returns

---
 src/libs/relay/conduit_relay_web.cpp | 75 +++++++++++++++++++++++++---
 src/libs/relay/conduit_relay_web.hpp |  9 +++-
 2 files changed, 77 insertions(+), 7 deletions(-)

diff --git a/src/libs/relay/conduit_relay_web.cpp b/src/libs/relay/conduit_relay_web.cpp
index 5fca174..86ca509 100644
--- a/src/libs/relay/conduit_relay_web.cpp
+++ b/src/libs/relay/conduit_relay_web.cpp
@@ -113,6 +113,35 @@ WebRequestHandler::handle_get(WebServer * /*server*/,
 //-----------------------------------------------------------------------------
 // -- Internal Server Interface Classes -
 //-----------------------------------------------------------------------------
+
+//-----------------------------------------------------------------------------
+// Marks the current thread as a thread that handles a request of a server.
+//-----------------------------------------------------------------------------
+class RequestScope
+{
+public:
+    RequestScope(WebServer *server)
+    : m_previous(active_server())
+    {
+        active_server() = server;
+    }
+
+    ~RequestScope()
+    {
+        active_server() = m_previous;
+    }
+
+    // the server whose request the current thread handles
+    static WebServer *&active_server()
+    {
+        static thread_local WebServer *server = NULL;
+        return server;
+    }
+
+private:
+    WebServer *m_previous;
+};
+
 class CivetDispatchHandler : public CivetHandler, 
                              public CivetWebSocketHandler
 {
@@ -152,6 +181,7 @@ public:
         handlePost(CivetServer *, // server -- unused
                    struct mg_connection *conn) 
         {
+            RequestScope scope(m_server);
             return m_server->handler()->handle_post(m_server,conn);
         }
         
@@ -162,6 +192,7 @@ public:
         handleGet(CivetServer *, // server -- unused
                   struct mg_connection *conn) 
         {
+            RequestScope scope(m_server);
             return m_server->handler()->handle_get(m_server,conn);
         }
         
@@ -543,7 +574,7 @@ WebServer::WebServer()
   m_entangle_obase(""),
   m_entangle_gateway(""),
   m_using_entangle(false),
-  m_running(false),
+  m_state(STOPPED),
   m_server(NULL),
   m_dispatch(NULL)
 {
@@ -585,6 +616,8 @@ WebServer::set_request_handler(WebRequestHandler *handler)
     }
     else
     {
+        // finish a shutdown requested by a request handler
+        WebServer::shutdown();
         m_handler = handler;
     }
 }
@@ -758,7 +791,7 @@ WebServer::entangle_register()
 bool
 WebServer::is_running() const
 {
-    return m_running;
+    return m_state == RUNNING;
 }
 
 
@@ -846,6 +879,9 @@ WebServer::serve(bool block)
         return; 
     }
 
+    // finish a shutdown requested by a request handler
+    WebServer::shutdown();
+
     if(m_handler == NULL)
     {
         m_handler = new WebRequestHandler();
@@ -965,14 +1001,17 @@ WebServer::serve(bool block)
         }
     }
 
+    m_state = STARTING;
+
     // setup REST handlers
     m_server->addHandler("/api/*",m_dispatch);
 
     // setup web socket handler
     m_server->addWebSocketHandler("/websocket", m_dispatch);
 
-    // signal we are valid
-    m_running = true;
+    // signal we are valid, unless a request already asked for a shutdown
+    int starting = STARTING;
+    m_state.compare_exchange_strong(starting,RUNNING);
     
     if(block)
     {
@@ -981,6 +1020,9 @@ WebServer::serve(bool block)
         {
             utils::sleep(100);
         }
+
+        // finish a shutdown requested by a request handler
+        WebServer::shutdown();
     }
 }
 
@@ -989,7 +1031,29 @@ WebServer::serve(bool block)
 void     
 WebServer::shutdown()
 {
-    if(is_running())
+    int state = m_state;
+
+    // A request handler runs on one of the threads that a shutdown waits for,
+    // so it can only request the shutdown. A blocking serve() finishes it,
+    // otherwise the next shutdown() (or serve()) of another thread does.
+    if(RequestScope::active_server() == this)
+    {
+        while((state == STARTING || state == RUNNING) &&
+              !m_state.compare_exchange_weak(state,STOPPING))
+        {
+            // empty
+        }
+        return;
+    }
+
+    // only one thread may clean up
+    while((state == RUNNING || state == STOPPING) &&
+          !m_state.compare_exchange_weak(state,STOPPED))
+    {
+        // empty
+    }
+
+    if(state == RUNNING || state == STOPPING)
     {
         CONDUIT_INFO("closing conduit::relay::web::WebServer instance on: " 
                      << m_address << ":" << m_port);
@@ -1012,7 +1076,6 @@ WebServer::shutdown()
             }
         }
 
-        m_running = false;
         m_using_entangle = false;
 
         delete m_server;
diff --git a/src/libs/relay/conduit_relay_web.hpp b/src/libs/relay/conduit_relay_web.hpp
index 21c4fb2..3e17460 100644
--- a/src/libs/relay/conduit_relay_web.hpp
+++ b/src/libs/relay/conduit_relay_web.hpp
@@ -11,6 +11,11 @@
 #ifndef CONDUIT_RELAY_WEB_HPP
 #define CONDUIT_RELAY_WEB_HPP
 
+//-----------------------------------------------------------------------------
+// std lib includes
+//-----------------------------------------------------------------------------
+#include <atomic>
+
 //-----------------------------------------------------------------------------
 // conduit lib includes
 //-----------------------------------------------------------------------------
@@ -179,7 +184,9 @@ private:
     std::string             m_entangle_gateway;
     bool                    m_using_entangle;
 
-    bool                    m_running;
+    // life cycle of the server, STOPPING: a request handler asked for shutdown
+    enum State { STOPPED, STARTING, RUNNING, STOPPING };
+    std::atomic<int>        m_state;
 
     CivetServer            *m_server;
     CivetDispatchHandler   *m_dispatch;
-- 
2.43.0


From 47f08a0472fe66fced990f9d266ffa3cabbba9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 85/97] fix: errors in web request handlers end the process

---
 src/libs/relay/conduit_relay_web.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_web.cpp b/src/libs/relay/conduit_relay_web.cpp
index 86ca509..66724bb 100644
--- a/src/libs/relay/conduit_relay_web.cpp
+++ b/src/libs/relay/conduit_relay_web.cpp
@@ -182,7 +182,16 @@ public:
                    struct mg_connection *conn) 
         {
             RequestScope scope(m_server);
-            return m_server->handler()->handle_post(m_server,conn);
+            try
+            {
+                return m_server->handler()->handle_post(m_server,conn);
+            }
+            catch(conduit::Error &e)
+            {
+                // civetweb's threads cannot handle exceptions
+                CONDUIT_INFO("Error handling POST request\n" << e.message());
+                return false;
+            }
         }
         
         //---------------------------------------------------------------------------//
@@ -193,7 +202,16 @@ public:
                   struct mg_connection *conn) 
         {
             RequestScope scope(m_server);
-            return m_server->handler()->handle_get(m_server,conn);
+            try
+            {
+                return m_server->handler()->handle_get(m_server,conn);
+            }
+            catch(conduit::Error &e)
+            {
+                // civetweb's threads cannot handle exceptions
+                CONDUIT_INFO("Error handling GET request\n" << e.message());
+                return false;
+            }
         }
         
         
-- 
2.43.0


From c21539d55d92b25d702907641ccee195323de5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:00 +0000
Subject: [PATCH 86/97] fix: node viewer requests change the node they read

---
 .../relay/conduit_relay_web_node_viewer_server.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/relay/conduit_relay_web_node_viewer_server.cpp b/src/libs/relay/conduit_relay_web_node_viewer_server.cpp
index d745d94..5505280 100644
--- a/src/libs/relay/conduit_relay_web_node_viewer_server.cpp
+++ b/src/libs/relay/conduit_relay_web_node_viewer_server.cpp
@@ -150,10 +150,24 @@ NodeViewerRequestHandler::handle_get_value(struct mg_connection *conn)
         char cpath[2048];
 
         int post_data_len = mg_read(conn, post_data, sizeof(post_data));
+
+        if(post_data_len < 0)
+        {
+            CONDUIT_INFO("failed to read rest request for value");
+            return false;
+        }
         
         // TODO: path instead of cpath?
         
         mg_get_var(post_data, post_data_len, "cpath", cpath, sizeof(cpath));
+
+        // a request must not create new paths
+        if(!m_node->has_path(cpath))
+        {
+            CONDUIT_INFO("rest request for value of unknown path:" << cpath);
+            return false;
+        }
+
         // TODO: value instead of datavalue
         mg_printf(conn,
                   "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n");
-- 
2.43.0


From 8dd0ef35f11dd863305f6ff63955e9bbfba626e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:55 +0000
Subject: [PATCH 87/97] fix: polytopal conversion fails on ranks without
 domains

---
 src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 1eebee3..eb98d25 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -261,7 +261,7 @@ void to_polytopal(const Node &n,
 
     for (const auto& dom_ptr : doms)
     {
-        if(dom_ptr->fetch("topologies").has_child(name))
+        if(dom_ptr->has_path("topologies/" + name))
         {
             const Node &topo = dom_ptr->fetch("topologies")[name];
             if(topo["type"].as_string() == "structured")
@@ -321,18 +321,19 @@ void to_polytopal(const Node &n,
 
     if(ok == 1)
     {
-        if(dims == 2)
+        // ranks without domains follow the others
+        if(gather_dims == 2)
         {
             to_polygonal(n,dest,name,comm);
         }
-        else if(dims == 3)
+        else if(gather_dims == 3)
         {
             to_polyhedral(n,dest,name,comm);
         }
         else
         {
             CONDUIT_ERROR("to_polytopal only supports 2d or 3d structured toplogies"
-                          " (passed mesh has dims = " << dims  << ")");
+                          " (passed mesh has dims = " << gather_dims  << ")");
         }
     }
     else
-- 
2.43.0


From 89d1b1f2574271cdaff259cc8a4eb79aed85276e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:55 +0000
Subject: [PATCH 88/97] fix: polygonal conversion deadlocks or mixes up the
 windows of different domains

---
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 78 ++++++++++++-------
 1 file changed, 51 insertions(+), 27 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index eb98d25..b414168 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -11,6 +11,7 @@
 //-----------------------------------------------------------------------------
 // std lib includes
 //-----------------------------------------------------------------------------
+#include <array>
 #include <algorithm>
 #include <tuple>
 #include <vector>
@@ -375,6 +376,12 @@ void to_polygonal(const Node &n,
     std::map<index_t, std::map<index_t, std::vector<double> > > dom_to_nbr_to_xbuffer;
     std::map<index_t, std::map<index_t, std::vector<double> > > dom_to_nbr_to_ybuffer;
 
+    // Windows that cross ranks: both sides order the messages they exchange
+    // by (rank of the other side, id of the fine domain, id of the coarse domain)
+    std::map<std::array<index_t, 3>, std::vector<double> > send_windows;
+    std::map<std::array<index_t, 3>, std::vector<double> > recv_windows;
+    std::vector<MPI_Request> requests;
+
     const std::vector<const conduit::Node *> doms = ::conduit::blueprint::mesh::domains(n);
     for (index_t si = 0; si < 3; si++)
     {
@@ -518,18 +525,9 @@ void to_polygonal(const Node &n,
                                     }
                                 }
                                 const index_t nbr_rank = group["rank"].to_index_t();
-                                MPI_Send(&xbuffer[0],
-                                         xbuffer.size(),
-                                         MPI_DOUBLE,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
-                                MPI_Send(&ybuffer[0],
-                                         ybuffer.size(),
-                                         MPI_DOUBLE,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
+                                auto& window = send_windows[{{nbr_rank, domain_id, nbr_id}}];
+                                window = xbuffer;
+                                window.insert(window.end(), ybuffer.begin(), ybuffer.end());
                             }
                             else if (si == 1 && nbr_size > ref_size)
                             {
@@ -550,21 +548,8 @@ void to_polygonal(const Node &n,
                                     }
 
                                     index_t nbr_rank = group["rank"].to_index_t();
-                                    MPI_Recv(&xbuffer[0],
-                                             xbuffer.size(),
-                                             MPI_DOUBLE,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
-                                    MPI_Recv(&ybuffer[0],
-                                             ybuffer.size(),
-                                             MPI_DOUBLE,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
-
+                                    recv_windows[{{nbr_rank, nbr_id, domain_id}}].resize(
+                                        xbuffer.size() + ybuffer.size());
                                 }
                                 else
                                 {
@@ -713,6 +698,45 @@ void to_polygonal(const Node &n,
                 }
             }
         }
+
+        if (si == 0)
+        {
+            for (auto& window : send_windows)
+            {
+                requests.emplace_back();
+                MPI_Isend(window.second.data(),
+                          (int)window.second.size(),
+                          MPI_DOUBLE,
+                          (int)window.first[0],
+                          0,
+                          comm,
+                          &requests.back());
+            }
+        }
+        else if (si == 1)
+        {
+            for (auto& window : recv_windows)
+            {
+                requests.emplace_back();
+                MPI_Irecv(window.second.data(),
+                          (int)window.second.size(),
+                          MPI_DOUBLE,
+                          (int)window.first[0],
+                          0,
+                          comm,
+                          &requests.back());
+            }
+            MPI_Waitall((int)requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+            for (const auto& window : recv_windows)
+            {
+                const index_t nbr_id = window.first[1], domain_id = window.first[2];
+                const size_t half = window.second.size() / 2;
+                dom_to_nbr_to_xbuffer[domain_id][nbr_id].assign(window.second.begin(),
+                                                                window.second.begin() + half);
+                dom_to_nbr_to_ybuffer[domain_id][nbr_id].assign(window.second.begin() + half,
+                                                                window.second.end());
+            }
+        }
     }
 }
 
-- 
2.43.0


From f7072dfa28f1160306ee2362f3df2f308c38d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:55 +0000
Subject: [PATCH 89/97] fix: polygonal conversion requires double coordinates
 named coords

---
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index b414168..0c9ddd3 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -554,18 +554,17 @@ void to_polygonal(const Node &n,
                                 else
                                 {
                                     const Node& nbr_dom = n[nbr_name];
-                                    const Node& nbr_coords = nbr_dom["coordsets/coords"];
 
                                     const Node& ntopo = nbr_dom["topologies"][name];
+                                    const Node& nbr_coords =
+                                        *bputils::find_reference_node(ntopo, "coordset");
                                     index_t ni_lo = ntopo["elements/origin/i0"].to_index_t();
                                     index_t nj_lo = ntopo["elements/origin/j0"].to_index_t();
                                     index_t nbr_iwidth = ntopo["elements/dims/i"].to_index_t() + 1;
 
-                                    // FIXME(JRC): These arrays aren't guaranteed to be double arrays;
-                                    // this code must be changed to accomodate arbitrary types.
                                     const Node& fcoords = nbr_coords["values"];
-                                    const double_array& xarray = fcoords["x"].as_double_array();
-                                    const double_array& yarray = fcoords["y"].as_double_array();
+                                    const double_accessor xarray = fcoords["x"].as_double_accessor();
+                                    const double_accessor yarray = fcoords["y"].as_double_accessor();
 
                                     index_t origin_i = nbr_win["origin/i"].to_index_t();
                                     index_t origin_j = nbr_win["origin/j"].to_index_t();
@@ -605,10 +604,8 @@ void to_polygonal(const Node &n,
                                     (nbr_size_j == 1) ? (xbuffer.size() - ref_size_i) : (
                                     (nbr_size_i == 1) ? (ybuffer.size() - ref_size_j) : (0)));
 
-                                // FIXME(JRC): These arrays aren't guaranteed to be double arrays;
-                                // this code must be changed to accomodate arbitrary types.
-                                const auto& out_x = out_cset["values"]["x"].as_double_array();
-                                const auto& out_y = out_cset["values"]["y"].as_double_array();
+                                const double_accessor out_x = out_cset["values"]["x"].as_double_accessor();
+                                const double_accessor out_y = out_cset["values"]["y"].as_double_accessor();
                                 index_t new_vertex = out_x.number_of_elements();
 
                                 const index_t out_x_size = out_x.number_of_elements();
@@ -618,11 +615,14 @@ void to_polygonal(const Node &n,
                                 std::vector<double> new_y;
                                 new_x.reserve(out_x_size + added);
                                 new_y.reserve(out_y_size + added);
-                                const double* out_x_ptr = static_cast<const double*>(out_x.element_ptr(0));
-                                const double* out_y_ptr = static_cast<const double*>(out_y.element_ptr(0));
-
-                                new_x.insert(new_x.end(), out_x_ptr, out_x_ptr + out_x_size);
-                                new_y.insert(new_y.end(), out_y_ptr, out_y_ptr + out_y_size);
+                                for (index_t vi = 0; vi < out_x_size; ++vi)
+                                {
+                                    new_x.push_back(out_x[vi]);
+                                }
+                                for (index_t vi = 0; vi < out_y_size; ++vi)
+                                {
+                                    new_y.push_back(out_y[vi]);
+                                }
 
                                 if ((xbuffer.size()-1)%use_ratio)
                                 {
-- 
2.43.0


From 53e4a85608cb9d0cfc6138a5fe4e462ccf0fad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:55 +0000
Subject: [PATCH 90/97] fix: polygons next to finer domains lose or misplace
 vertices

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index c99c3d0..27105c7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1128,7 +1128,7 @@ connectivity::connect_elements_2d(const Node& ref_win,
                         index_t ioff = offset % iwidth;
                         index_t joff = offset / iwidth;
                         index_t target = (iwidth+1)*joff + ioff + 1;
-                        for (index_t nr = 1; nr < 1+ratio; ++nr)
+                        for (index_t nr = 1; nr < (index_t)new_size; ++nr)
                         {
                             if (elem_conn[nr] == target)
                             {
@@ -1163,7 +1163,7 @@ connectivity::connect_elements_2d(const Node& ref_win,
                 {
                     size_t new_size = elem_conn.size() + ratio - 1;
                     elem_conn.resize(new_size);
-                    for (index_t nr = new_size-1; nr > 1; --nr)
+                    for (index_t nr = new_size-1; nr >= ratio; --nr)
                     {
                         elem_conn[nr] = elem_conn[nr-ratio+1];
                     }
@@ -1192,7 +1192,7 @@ connectivity::connect_elements_2d(const Node& ref_win,
                         index_t ioff = offset % iwidth;
                         index_t joff = offset / iwidth;
                         index_t target = (iwidth+1)*(joff+1) + ioff + 1;
-                        for (index_t nr = 3; nr < 3+ratio; ++nr)
+                        for (index_t nr = 2; nr < (index_t)new_size; ++nr)
                         {
                             if (elem_conn[nr] == target) {
                                 corner = nr;
-- 
2.43.0


From 040ed3b66bf0cf130249ea1297fc07291e6113ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 91/97] fix: polyhedral conversion deadlocks or mixes up the
 windows of different domains

---
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 162 ++++++++----------
 1 file changed, 70 insertions(+), 92 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 0c9ddd3..40d2ca5 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -1177,6 +1177,11 @@ void to_polyhedral(const Node &n,
     std::map<index_t, std::vector<index_t> > subelem_sizes;
     std::map<index_t, std::vector<index_t> > subelem_offsets;
 
+    // Windows that cross ranks: both sides order the messages they exchange
+    // by (rank of the other side, id of the fine domain, id of the coarse domain)
+    std::map<std::array<index_t, 3>, std::vector<index_t> > send_ids, recv_ids;
+    std::map<std::array<index_t, 3>, std::vector<double> > send_coords, recv_coords;
+
     while(itr.has_next())
     {
         const Node& chld = itr.next();
@@ -1304,13 +1309,6 @@ void to_polyhedral(const Node &n,
                                 buffer[5] = in_topo["elements/origin/k0"].to_index_t();
 
                                 index_t nbr_rank = group["rank"].to_index_t();
-                                MPI_Send(buffer,
-                                         6,
-                                         MPI_INT64_T,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
-
                                 std::vector<index_t> vertices;
                                 std::vector<double> xbuffer, ybuffer, zbuffer;
                                 const Node &fcoords = (*in_cset)["values"];
@@ -1402,32 +1400,14 @@ void to_polyhedral(const Node &n,
                                 }
 
 
-                                MPI_Send(&vertices[0],
-                                         vertices.size(),
-                                         MPI_INT64_T,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
-                                MPI_Send(&xbuffer[0],
-                                         xbuffer.size(),
-                                         MPI_DOUBLE,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
-                                MPI_Send(&ybuffer[0],
-                                         ybuffer.size(),
-                                         MPI_DOUBLE,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
-                                MPI_Send(&zbuffer[0],
-                                         zbuffer.size(),
-                                         MPI_DOUBLE,
-                                         nbr_rank,
-                                         domain_id,
-                                         comm);
-
+                                auto& ids = send_ids[{{nbr_rank, domain_id, nbr_id}}];
+                                ids.assign(buffer, buffer + 6);
+                                ids.insert(ids.end(), vertices.begin(), vertices.end());
 
+                                auto& coords = send_coords[{{nbr_rank, domain_id, nbr_id}}];
+                                coords = xbuffer;
+                                coords.insert(coords.end(), ybuffer.begin(), ybuffer.end());
+                                coords.insert(coords.end(), zbuffer.begin(), zbuffer.end());
                             }
                         }
                     }
@@ -1621,7 +1601,16 @@ void to_polyhedral(const Node &n,
                                     << std::setfill('0') << nbr_id;
                             std::string nbr_name = nbr_oss.str();
 
-                            if (in_parent->has_child(nbr_name))
+                            if (!in_parent->has_child(nbr_name))
+                            {
+                                if (pbnd.side >= 0)
+                                {
+                                    const index_t nbr_rank = group["rank"].to_index_t();
+                                    recv_ids[{{nbr_rank, nbr_id, domain_id}}].resize(6 + nbr_size);
+                                    recv_coords[{{nbr_rank, nbr_id, domain_id}}].resize(3 * nbr_size);
+                                }
+                            }
+                            else
                             {
                                 const Node& nbr_dom =
                                    (*in_parent)[nbr_name];
@@ -1662,6 +1651,47 @@ void to_polyhedral(const Node &n,
         }
     }
 
+    std::vector<MPI_Request> requests;
+    for (auto& ids : send_ids)
+    {
+        auto& coords = send_coords[ids.first];
+        requests.resize(requests.size() + 2);
+        MPI_Isend(ids.second.data(),
+                  (int)ids.second.size(),
+                  MPI_INT64_T,
+                  (int)ids.first[0],
+                  0,
+                  comm,
+                  &requests[requests.size() - 2]);
+        MPI_Isend(coords.data(),
+                  (int)coords.size(),
+                  MPI_DOUBLE,
+                  (int)ids.first[0],
+                  0,
+                  comm,
+                  &requests[requests.size() - 1]);
+    }
+    for (auto& ids : recv_ids)
+    {
+        auto& coords = recv_coords[ids.first];
+        requests.resize(requests.size() + 2);
+        MPI_Irecv(ids.second.data(),
+                  (int)ids.second.size(),
+                  MPI_INT64_T,
+                  (int)ids.first[0],
+                  0,
+                  comm,
+                  &requests[requests.size() - 2]);
+        MPI_Irecv(coords.data(),
+                  (int)coords.size(),
+                  MPI_DOUBLE,
+                  (int)ids.first[0],
+                  0,
+                  comm,
+                  &requests[requests.size() - 1]);
+    }
+    MPI_Waitall((int)requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+
     std::map<index_t, std::map<index_t, std::map<index_t,index_t> > > dom_to_nbr_to_buffidx;
     std::map<index_t, std::map<index_t, std::vector<double> > > dom_to_nbr_to_xbuffer;
     std::map<index_t, std::map<index_t, std::vector<double> > > dom_to_nbr_to_ybuffer;
@@ -1745,15 +1775,8 @@ void to_polyhedral(const Node &n,
                                 if (pbnd.side >= 0)
                                 {
                                     index_t nbr_rank = group["rank"].to_index_t();
-                                    index_t buffer[6];
-
-                                    MPI_Recv(buffer,
-                                             6,
-                                             MPI_INT64_T,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
+                                    const auto& buffer = recv_ids[{{nbr_rank, nbr_id, domain_id}}];
+                                    const auto& coords = recv_coords[{{nbr_rank, nbr_id, domain_id}}];
 
                                     index_t nbr_iwidth = buffer[0];
                                     index_t nbr_jwidth = buffer[1];
@@ -1773,56 +1796,11 @@ void to_polyhedral(const Node &n,
                                                     ni_lo, nj_lo, nk_lo,
                                                     ratio_i,ratio_j,ratio_k,
                                                     false);
-                                    if (nbr_size_i == 1)
-                                    {
-                                        vertices.resize(nbr_size_j*nbr_size_k);
-                                        xbuffer.resize(nbr_size_j*nbr_size_k);
-                                        ybuffer.resize(nbr_size_j*nbr_size_k);
-                                        zbuffer.resize(nbr_size_j*nbr_size_k);
-                                    }
-                                    else if (nbr_size_j == 1)
-                                    {
-                                        vertices.resize(nbr_size_i*nbr_size_k);
-                                        xbuffer.resize(nbr_size_i*nbr_size_k);
-                                        ybuffer.resize(nbr_size_i*nbr_size_k);
-                                        zbuffer.resize(nbr_size_i*nbr_size_k);
-                                    }
-                                    else
-                                    {
-                                        vertices.resize(nbr_size_i*nbr_size_j);
-                                        xbuffer.resize(nbr_size_i*nbr_size_j);
-                                        ybuffer.resize(nbr_size_i*nbr_size_j);
-                                        zbuffer.resize(nbr_size_i*nbr_size_j);
-                                    }
-    
-                                    MPI_Recv(&vertices[0],
-                                             vertices.size(),
-                                             MPI_INT64_T,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
-                                    MPI_Recv(&xbuffer[0],
-                                             xbuffer.size(),
-                                             MPI_DOUBLE,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
-                                    MPI_Recv(&ybuffer[0],
-                                             ybuffer.size(),
-                                             MPI_DOUBLE,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
-                                    MPI_Recv(&zbuffer[0],
-                                             zbuffer.size(),
-                                             MPI_DOUBLE,
-                                             nbr_rank,
-                                             nbr_id,
-                                             comm,
-                                             MPI_STATUS_IGNORE);
+                                    vertices.assign(buffer.begin() + 6, buffer.end());
+                                    xbuffer.assign(coords.begin(), coords.begin() + nbr_size);
+                                    ybuffer.assign(coords.begin() + nbr_size,
+                                                   coords.begin() + 2 * nbr_size);
+                                    zbuffer.assign(coords.begin() + 2 * nbr_size, coords.end());
                                     index_t v = 0;
                                     for (auto vitr = vertices.begin();
                                          vitr != vertices.end(); ++vitr)
-- 
2.43.0


From 2cf3b97a6738b7736ada29043b2094c28c98b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:30 +0000
Subject: [PATCH 92/97] fix: polyhedral conversion crashes for negative origins

---
 .../blueprint/conduit_blueprint_mpi_mesh.cpp   | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 40d2ca5..4f76e4c 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -853,6 +853,12 @@ void match_nbr_elems(PolyBndry& pbnd,
 
     index_t side = pbnd.side;
 
+    // indices left of the origin are negative
+    const auto floor_div = [] (index_t idx, index_t ratio)
+    {
+        return idx >= 0 ? idx / ratio : -((-idx + ratio - 1) / ratio);
+    };
+
     if (side == 0 || side == 1)
     {
         pbnd.m_nbrs_per_face = static_cast<size_t>(ratio_j*ratio_k);
@@ -870,14 +876,14 @@ void match_nbr_elems(PolyBndry& pbnd,
 
         for (index_t kidx = kstart; kidx < kend; ++kidx)
         {
-            index_t rkidx = kidx/ratio_k;
+            index_t rkidx = floor_div(kidx, ratio_k);
             index_t nk = kidx - nk_lo;
             index_t rk = rkidx - rk_lo;
             index_t nkoffset = icnst + nk*nbr_iwidth*nbr_jwidth;
             index_t rkoffset = ricnst + rk*ref_iwidth*ref_jwidth;
             for (index_t jidx = jstart; jidx < jend; ++jidx)
             {
-                index_t rjidx = jidx/ratio_j;
+                index_t rjidx = floor_div(jidx, ratio_j);
                 index_t nj = jidx - nj_lo;
                 index_t rj = rjidx - rj_lo;
                 index_t noffset = nkoffset + nj*nbr_iwidth;
@@ -946,14 +952,14 @@ void match_nbr_elems(PolyBndry& pbnd,
 
         for (index_t kidx = kstart; kidx < kend; ++kidx)
         {
-            index_t rkidx = kidx/ratio_k;
+            index_t rkidx = floor_div(kidx, ratio_k);
             index_t nk = kidx - nk_lo;
             index_t rk = rkidx - rk_lo;
             index_t nkoffset = nk*nbr_iwidth*nbr_jwidth;
             index_t rkoffset = rk*ref_iwidth*ref_jwidth;
             for (index_t iidx = istart; iidx < iend; ++iidx)
             {
-                index_t riidx = iidx/ratio_i;
+                index_t riidx = floor_div(iidx, ratio_i);
                 index_t ni = iidx - ni_lo;
                 index_t ri = riidx - ri_lo;
                 index_t noffset = nkoffset + jcnst*nbr_iwidth + ni;
@@ -1026,14 +1032,14 @@ void match_nbr_elems(PolyBndry& pbnd,
 
         for (index_t jidx = jstart; jidx < jend; ++jidx)
         {
-            index_t rjidx = jidx/ratio_j;
+            index_t rjidx = floor_div(jidx, ratio_j);
             index_t nj = jidx - nj_lo;
             index_t rj = rjidx - rj_lo;
             index_t njoffset = kcnst*nbr_iwidth*nbr_jwidth + nj*nbr_iwidth;
             index_t rjoffset = rkcnst*ref_iwidth*ref_jwidth + rj*ref_iwidth;
             for (index_t iidx = istart; iidx < iend; ++iidx)
             {
-                index_t riidx = iidx/ratio_i;
+                index_t riidx = floor_div(iidx, ratio_i);
                 index_t ni = iidx - ni_lo;
                 index_t ri = riidx - ri_lo;
                 index_t noffset = njoffset + ni;
-- 
2.43.0


From b292d0947416906f6ce31cd9e4177f652ceba7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:21 +0000
Subject: [PATCH 93/97] fix: polyhedra lose vertices on faces between cells
 with different finer sides

---
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 40 +++++--------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index 4f76e4c..fc327c2 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -2235,6 +2235,7 @@ void to_polyhedral(const Node &n,
         index_t istride = 1;
         index_t jstride = iwidth+1;
         index_t kstride = (iwidth+1)*(jwidth+1);
+        index_t num_coarse_verts = kstride*(kwidth+1);
 
         const auto& ratio = nbr_ratio[domain_id];
 
@@ -2273,12 +2274,6 @@ void to_polyhedral(const Node &n,
                     if (new_faces.find(pface) == new_faces.end())
                     {
                         auto& subelem = allfaces[pface];
-                        if (subelem.size() > 4)
-                        {
-                            //This subelem has already added new vertices
-                            continue;
-                        }
-
                         //new subelems that are adjacent to pface.
                         std::set<index_t> edge_verts;
                         for (auto vi = subelem.begin(); vi != subelem.end();
@@ -2291,7 +2286,7 @@ void to_polyhedral(const Node &n,
                                 for (auto ni = nface.begin();
                                      ni != nface.end(); ++ni)
                                 {
-                                    if (*ni == *vi)
+                                    if (*ni == *vi && *vi < num_coarse_verts)
                                     {
                                         edge_verts.insert(*vi);
                                     }
@@ -2305,29 +2300,16 @@ void to_polyhedral(const Node &n,
                         }
 
                         
-                        size_t num_edges;
-                        if (edge_verts.size() == 4)
-                        {
-                            //Special case when all 4 vertices of subelem
-                            //are selected.  There may be only 3 edges that
-                            //get new vertices but we have to check them all.
-                            num_edges = edge_verts.size();
-                        }
-                        else
-                        {
-                            num_edges = edge_verts.size() - 1;
-                        }
+                        //Edges that the element on the other side of this
+                        //subelem has split already have no more adjacent
+                        //coarse vertices. When all 4 vertices of subelem
+                        //are selected, there may be only 3 edges that
+                        //get new vertices but we have to check them all.
+                        std::vector<std::vector<index_t> > edges;
 
-                        size_t edge_count = 0;
-                        std::vector<std::vector<index_t> > edges(num_edges);
- 
                         for (auto vi = subelem.begin(); vi != subelem.end();
                              ++vi)
                         {
-                            if (edge_count == num_edges)
-                            {
-                                break;
-                            }
                             auto next = vi + 1;
                             if (next == subelem.end())
                             {
@@ -2336,9 +2318,7 @@ void to_polyhedral(const Node &n,
                             if (edge_verts.find(*vi) != edge_verts.end() &&
                                 edge_verts.find(*next) != edge_verts.end())
                             {
-                                edges[edge_count].push_back(*vi);
-                                edges[edge_count].push_back(*next);
-                                ++edge_count;
+                                edges.push_back({*vi, *next});
                             }
                         }
                
@@ -2433,7 +2413,7 @@ void to_polyhedral(const Node &n,
                             }
 
                             assert(test_verts.size() >= verts_needed ||
-                                   num_edges == 4);
+                                   edge_verts.size() == 4);
 
                             for (auto tv = test_verts.begin();
                                  tv != test_verts.end(); ++tv)
-- 
2.43.0


From 8c083eb7db7ea396841c8e99f8e6e3700cd039b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 94/97] fix: polyhedral conversion requires double coordinates
 named coords

---
 .../blueprint/conduit_blueprint_mpi_mesh.cpp  | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
index fc327c2..b95d921 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp
@@ -1193,14 +1193,15 @@ void to_polyhedral(const Node &n,
         const Node& chld = itr.next();
         std::string domain_name = itr.name();
         dest[domain_name]["state"] = chld["state"];
-        const Node& in_coords = chld["coordsets/coords"];
         const Node& in_topo = chld["topologies"][name];
+        const Node& in_coords = *bputils::find_reference_node(in_topo, "coordset");
+        const std::string cset_name = in_topo["coordset"].as_string();
 
         index_t iwidth = in_topo["elements/dims/i"].to_index_t();
         index_t jwidth = in_topo["elements/dims/j"].to_index_t();
         index_t kwidth = in_topo["elements/dims/k"].to_index_t();
 
-        Node& out_coords = dest[domain_name]["coordsets/coords"];
+        Node& out_coords = dest[domain_name]["coordsets"][cset_name];
 
         index_t domain_id = chld["state/domain_id"].to_index_t();
         Node& out_values = out_coords["values"];
@@ -1820,11 +1821,11 @@ void to_polyhedral(const Node &n,
                             {
                                 const Node& nbr_dom =
                                    (*in_parent)[nbr_name];
-                                const Node& nbr_coords =
-                                   nbr_dom["coordsets/coords"];
 
                                 const Node& ntopo =
                                    nbr_dom["topologies"][name];
+                                const Node& nbr_coords =
+                                   *bputils::find_reference_node(ntopo, "coordset");
                                 index_t ni_lo =
                                    ntopo["elements/origin/i0"].to_index_t();
                                 index_t nj_lo =
@@ -1838,12 +1839,12 @@ void to_polyhedral(const Node &n,
 
                                 const Node& fcoords =
                                    nbr_coords["values"];
-                                const double_array& xarray =
-                                   fcoords["x"].as_double_array();
-                                const double_array& yarray =
-                                   fcoords["y"].as_double_array();
-                                const double_array& zarray =
-                                   fcoords["z"].as_double_array();
+                                const double_accessor xarray =
+                                   fcoords["x"].as_double_accessor();
+                                const double_accessor yarray =
+                                   fcoords["y"].as_double_accessor();
+                                const double_accessor zarray =
+                                   fcoords["z"].as_double_accessor();
 
                                 index_t origin_i = nbr_win["origin/i"].to_index_t();
                                 index_t origin_j = nbr_win["origin/j"].to_index_t();
@@ -1891,16 +1892,18 @@ void to_polyhedral(const Node &n,
 
         index_t domain_id = chld["state/domain_id"].to_index_t();
 
-        const Node& dom_coords = chld["coordsets/coords"];
+        const Node& in_topo = chld["topologies"][name];
+        const Node& dom_coords = *bputils::find_reference_node(in_topo, "coordset");
+        const std::string cset_name = in_topo["coordset"].as_string();
 
-        const double_array& ref_xarray =
-           dom_coords["values/x"].as_double_array();
-        const double_array& ref_yarray =
-           dom_coords["values/y"].as_double_array();
-        const double_array& ref_zarray =
-           dom_coords["values/z"].as_double_array();
+        const double_accessor ref_xarray =
+           dom_coords["values/x"].as_double_accessor();
+        const double_accessor ref_yarray =
+           dom_coords["values/y"].as_double_accessor();
+        const double_accessor ref_zarray =
+           dom_coords["values/z"].as_double_accessor();
 
-        Node& out_coords = dest[domain_name]["coordsets/coords"];
+        Node& out_coords = dest[domain_name]["coordsets"][cset_name];
 
         std::vector<double> out_xvec;
         std::vector<double> out_yvec;
@@ -1924,14 +1927,13 @@ void to_polyhedral(const Node &n,
         else
         {
             out_coords["type"] = dom_coords["type"];
-            const double* tmp_x_ptr = static_cast< const double*>(ref_xarray.data_ptr());
-            const double* tmp_y_ptr = static_cast< const double*>(ref_yarray.data_ptr());
-            const double* tmp_z_ptr = static_cast< const double*>(ref_zarray.data_ptr());
-
-            index_t num_coords = ref_xarray.dtype().number_of_elements();
-            out_xvec.insert(out_xvec.end(), tmp_x_ptr, tmp_x_ptr + num_coords);
-            out_yvec.insert(out_yvec.end(), tmp_y_ptr, tmp_y_ptr + num_coords);
-            out_zvec.insert(out_zvec.end(), tmp_z_ptr, tmp_z_ptr + num_coords);
+            index_t num_coords = ref_xarray.number_of_elements();
+            for (index_t vi = 0; vi < num_coords; ++vi)
+            {
+                out_xvec.push_back(ref_xarray[vi]);
+                out_yvec.push_back(ref_yarray[vi]);
+                out_zvec.push_back(ref_zarray[vi]);
+            }
         }
 
 
@@ -2239,7 +2241,7 @@ void to_polyhedral(const Node &n,
 
         const auto& ratio = nbr_ratio[domain_id];
 
-        Node& out_coords = dest[domain_name]["coordsets/coords"];
+        Node& out_coords = dest[domain_name]["coordsets"][in_topo["coordset"].as_string()];
 
         const double_array& xarray =
            out_coords["values/x"].as_double_array();
-- 
2.43.0


From 04117c7afb26635b9f74d370b4dafeebf7c85fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:35 +0000
Subject: [PATCH 95/97] fix: reading CSV text without a header, or with too
 many or too few entries in a row, used memory outside the table

---
 src/libs/relay/conduit_relay_io_csv.cpp | 59 +++++++++++--------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index e59ee8c..0f2b0b6 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -251,25 +251,20 @@ add_column(const std::string &name, Node &values)
 
 //-----------------------------------------------------------------------------
 static void
-add_columns(Node &values, std::vector<std::string> &col_names,
-    index_t ncols, const DataType &dtype)
+add_columns(Node &values, const std::vector<std::string> &col_names,
+    index_t ncols, const DataType &dtype, std::vector<Node*> &cols)
 {
-    if(col_names.empty())
+    for(index_t i = 0; i < ncols; i++)
     {
-        for(index_t i = 0; i < ncols; i++)
+        const std::string name = col_names.empty() ? "" : col_names[i];
+        if(!col_names.empty() && name.empty())
         {
-            Node &col = add_column("", values);
-            col.set_dtype(dtype);
-            col_names.push_back(col.name());
-        }
-    }
-    else
-    {
-        for(const std::string &name : col_names)
-        {
-            Node &col = add_column(name, values);
-            col.set_dtype(dtype);
+            CONDUIT_ERROR("Column " << i << " does not have a name.");
+            return;
         }
+        Node &col = add_column(name, values);
+        col.set_dtype(dtype);
+        cols.push_back(&col);
     }
 }
 
@@ -299,6 +294,8 @@ read_column_names(const std::string &line, std::vector<std::string> &col_names,
     col_names.push_back(line.substr(start));
     utils::trim_string(col_names.back());
 
+    const index_t ncols = static_cast<index_t>(col_names.size());
+
     // Check these are column names and not data
     bool all_numbers = true;
     for(const std::string &name : col_names)
@@ -325,14 +322,14 @@ read_column_names(const std::string &line, std::vector<std::string> &col_names,
     {
         col_names.clear();
     }
-    return static_cast<index_t>(col_names.size());
+    return ncols;
 }
 
 //-----------------------------------------------------------------------------
 template<typename FloatType>
 void
 read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
-    const std::vector<std::string> &col_names, Node &values,
+    const std::vector<Node*> &cols,
     const char sep = ',')
 {
     static_assert(std::is_floating_point<FloatType>().value,
@@ -349,18 +346,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
         while(end != std::string::npos)
         {
             const auto len = end - start;
-            if(icol > col_names.size())
+            if(icol >= cols.size())
             {
                 CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
                 return;
             }
 
-            Node *n = values.fetch_ptr(col_names[icol]);
-            if(!n)
-            {
-                CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-                return;
-            }
+            Node *n = cols[icol];
 
             std::string data = line.substr(start, len);
             try
@@ -395,19 +387,19 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
             end = line.find(sep, start);
         }
         // Get the last name
-        if(icol > col_names.size())
+        if(icol >= cols.size())
         {
             CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
             return;
         }
-
-        Node *n = values.fetch_ptr(col_names[icol]);
-        if(!n)
+        if(icol + 1 < cols.size())
         {
-            CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
+            CONDUIT_ERROR("Error while reading file, row " << row << " contains too few column entries!");
             return;
         }
 
+        Node *n = cols[icol];
+
         std::string data = line.substr(start);
         try
         {
@@ -482,20 +474,21 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
     const DataType dtype((use_float64) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID,
         nrows);
     Node &values = table["values"];
-    add_columns(values, column_names, ncols, dtype);
+    std::vector<Node*> cols;
+    add_columns(values, column_names, ncols, dtype, cols);
 
     if(dtype.is_float())
     {
-        read_csv_data<float>(fin, data_start, column_names, values);
+        read_csv_data<float>(fin, data_start, cols);
     }
     else if(dtype.is_double())
     {
-        read_csv_data<double>(fin, data_start, column_names, values);
+        read_csv_data<double>(fin, data_start, cols);
     }
 #ifdef CONDUIT_HAS_LONG_DOUBLE
     else if(dtype.is_long_double())
     {
-        read_csv_data<long double>(fin, data_start, column_names, values);
+        read_csv_data<long double>(fin, data_start, cols);
     }
 #endif
     else
-- 
2.43.0


From 05f6c918abebdd6617f37568ce04262e1449657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:35 +0000
Subject: [PATCH 96/97] fix: read_csv ignores read errors, and returns a table
 without the rows it could not read

---
 src/libs/relay/conduit_relay_io_csv.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index 0f2b0b6..954c474 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -329,7 +329,7 @@ read_column_names(const std::string &line, std::vector<std::string> &col_names,
 template<typename FloatType>
 void
 read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
-    const std::vector<Node*> &cols,
+    const std::vector<Node*> &cols, const index_t nrows,
     const char sep = ',')
 {
     static_assert(std::is_floating_point<FloatType>().value,
@@ -338,7 +338,7 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
     fin.clear();
     fin.seekg(offset, fin.beg);
     index_t row = 0;
-    while(std::getline(fin, line))
+    while(row < nrows && std::getline(fin, line))
     {
         std::size_t icol = 0;
         std::size_t start = 0;
@@ -428,6 +428,11 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
         }
         row++;
     }
+
+    if(row != nrows)
+    {
+        CONDUIT_ERROR("Error while reading file, read " << row << " of " << nrows << " rows.");
+    }
 }
 
 //-----------------------------------------------------------------------------
@@ -469,6 +474,11 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
     {
         nrows++;
     }
+    if(fin.bad())
+    {
+        CONDUIT_ERROR("Failed to read file " << quote(path) << ".");
+        return;
+    }
 
     // Allocate the output table
     const DataType dtype((use_float64) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID,
@@ -479,16 +489,16 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
 
     if(dtype.is_float())
     {
-        read_csv_data<float>(fin, data_start, cols);
+        read_csv_data<float>(fin, data_start, cols, nrows);
     }
     else if(dtype.is_double())
     {
-        read_csv_data<double>(fin, data_start, cols);
+        read_csv_data<double>(fin, data_start, cols, nrows);
     }
 #ifdef CONDUIT_HAS_LONG_DOUBLE
     else if(dtype.is_long_double())
     {
-        read_csv_data<long double>(fin, data_start, cols);
+        read_csv_data<long double>(fin, data_start, cols, nrows);
     }
 #endif
     else
-- 
2.43.0


From cc355ecd9763a260370b9efebb3f31ef2a2cbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:03 +0000
Subject: [PATCH 97/97] fix: reading a directory of CSV tables ignores a
 failing listing, and trips over files with short names

---
 src/libs/relay/conduit_relay_io_csv.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index 954c474..4a776f7 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -513,13 +513,18 @@ read_many_tables(const std::string &path, const bool use_float64, Node &table)
 {
     // Path must've been a directory
     std::vector<std::string> dir_contents;
-    utils::list_directory_contents(path, dir_contents);
+    if(!utils::list_directory_contents(path, dir_contents))
+    {
+        CONDUIT_ERROR("Unable to list any files in directory " << quote(path) << ".");
+        return;
+    }
 
     // We will only attempt to read the csv files
     std::vector<std::string> csv_files;
     for(const auto &filename : dir_contents)
     {
         if(utils::is_file(filename)
+            && filename.length() >= 4
             && filename.substr(filename.length() - 4) == ".csv")
         {
             csv_files.push_back(filename);
-- 
2.43.0

