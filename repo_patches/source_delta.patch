From 86066aa7969431dad6c567de2fdc644668137d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 01/13] fix: compare all settings in configuration equality

---
 include/lamppost/LampPostConfiguration.h             | 3 ++-
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..1acffb3 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,8 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return mPluginManagerConfiguration == other.mPluginManagerConfiguration
+        && mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..2eb7e46 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin(), rhs.mTemplateSearchPaths.end());
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From 51975f6fa3096e350177fab22c008648fa549294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 02/13] fix: honour the directory filter in
 GetDirectoryContents

---
 src/lamppost/Filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..2e01d95 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -106,7 +106,7 @@ namespace lp
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
         if(filterIncludesDirectories && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
-- 
2.43.0


From ddad62ecbbadaa304dd1ddafa574ff10a7660f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 03/13] fix: report stopped once LampPost::Start has returned

---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..3b6fc01 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -140,7 +140,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
-- 
2.43.0


From c79f9c70a240b31f5ce252580ae4be52ba2ef64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 04/13] fix: read JSON documents that are a bare number or
 literal

---
 src/lamppost/messages/RawDatagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..3146887 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -411,7 +411,8 @@ namespace lp
 
       tok = json_tokener_new_ex(1000);
 
-      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length());
+      // Note: The terminating zero is part of the input; without it a bare number or literal is never complete.
+      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
       error = tok->err;
 
       if(error == json_tokener_success)
-- 
2.43.0


From f5fd20e9fa8e954c68b2c70dac775bf619d0c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 05/13] fix: keep the kind of empty lists and dictionaries when
 deserialising

---
 src/lamppost/messages/RawDatagram.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 3146887..548e791 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -375,6 +375,7 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
+          rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::List);
           unsigned int length = structure->list_content()->size();
 
           for(unsigned int i = 0; i < length; ++i)
@@ -385,6 +386,7 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
           for(unsigned int i = 0; i < length; ++i)
-- 
2.43.0


From 9589bc90f26ab6c86fd9d81da868d2f14801206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:57 +0000
Subject: [PATCH 06/13] fix: close an action request before answering it

---
 src/lamppost/bus/ActionConsumer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..6925044 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -72,12 +72,15 @@ namespace lp
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      auto openRequest = mOpenRequests.find(invocationId);
+      if(openRequest != mOpenRequests.end())
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
-      }
+        // Close the request before answering it, so that a callback that throws cannot be answered again.
+        std::function<void(messages::Datagram)> callback = std::move(openRequest->second);
+        mOpenRequests.erase(openRequest);
 
+        callback(response);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From f650b1c2b2f122d6dd9285ab581bfe6e42721f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:50 +0000
Subject: [PATCH 07/13] fix: do not register a plugin instance that was not
 created

---
 src/lamppost/plugin/PluginTemplate.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..374c630 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -33,9 +33,14 @@ namespace lp
     configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
     configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
 
-    mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
+    std::shared_ptr<PluginInstance> instance = mConfiguration.mInstantiateFunction(configuration);
 
-    return mInstances[configuration.mIdentifier];
+    if(instance != nullptr)
+    {
+      mInstances[configuration.mIdentifier] = instance;
+    }
+
+    return instance;
   }
 
   void PluginTemplate::Stop()
-- 
2.43.0


From 47336e3ec89314d2353b952477779d9f3d929a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:01 +0000
Subject: [PATCH 08/13] fix: treat a plugin library that reports no information
 as incomplete

CreateInfo may return null; the loader dereferenced it.
---
 src/lamppost/plugin/PluginManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..863fc40 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
-- 
2.43.0


From d67e6b381c5beec4ec2ae7f6edf5ecb99a678d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:49 +0000
Subject: [PATCH 09/13] fix: keep processing a configuration when a plugin
 cannot be created

A creation that failed with another exception than OperationFailedException
(a bus name that is taken, a type that is no string) ended the whole start.
---
 src/lamppost/LampPost.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 3b6fc01..65c2df6 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -85,22 +85,22 @@ namespace lp
       {
         if(config["plugins"][i].KeyExists("type"))
         {
-          std::string pluginType = config["plugins"][i]["type"];
-
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
 
           try
           {
+            std::string pluginType = config["plugins"][i]["type"];
+
             InstantiatePlugin(pluginType, pluginConfiguration);
           }
-          catch(exceptions::OperationFailedException& operationFailedException)
+          catch(std::exception& exception)
           {
             std::stringstream configSts;
             configSts << pluginConfiguration.mCustomConfiguration;
 
             mLog.Error("Error while processing configuration file:");
-            mLog.Error(std::string(operationFailedException.what()), 1);
+            mLog.Error(std::string(exception.what()), 1);
             mLog.Error("Plugin configuration: " + configSts.str(), 1);
           }
         }
-- 
2.43.0


From 1def4632146d0eba58b8a03d24ee53fea07d329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:20 +0000
Subject: [PATCH 10/13] fix: accept a configuration with an empty plugin list

An empty list is read as an empty node, which has no count, so Start ended
with an exception.
---
 src/lamppost/LampPost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index 65c2df6..df41389 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -72,7 +72,7 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && !config["plugins"].IsEmpty())
     {
       int pluginsCount = config["plugins"].GetCount();
 
-- 
2.43.0


From b213dffafc16091dd0a77dc41334537fddc122da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 11/13] fix: reject malformed serialized messages instead of
 reading outside of them

Message::Deserialize verifies the bytes before it reads them and throws an
OperationFailedException when they are not a complete serialized message;
the link drops such messages and logs a warning.
---
 src/lamppost/messages/Message.cpp     | 24 ++++++++++++++++++++++++
 src/lamppost/messages/RawDatagram.cpp | 23 +++++++++++++++++++++++
 src/plugins/link/Link.cpp             | 13 +++++++++++--
 3 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..93a9c26 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -1,5 +1,7 @@
 #include <lamppost/messages/Message.h>
 
+#include <lamppost/exceptions/OperationFailedException.h>
+
 
 namespace lp {
   namespace messages {
@@ -43,8 +45,30 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      const std::size_t size = bytesToDeserialize->GetSize();
+
+      if(size >= FLATBUFFERS_MAX_BUFFER_SIZE)
+      {
+        throw exceptions::OperationFailedException("Bytes to deserialize are too large for a message.");
+      }
+
+      // Note: The size of the buffer bounds the number and the depth of the tables in it; apart from that, payloads may be nested
+      // arbitrarily.
+      const flatbuffers::uoffset_t limit = static_cast<flatbuffers::uoffset_t>(size);
+      flatbuffers::Verifier verifier(static_cast<const uint8_t*>(bytesToDeserialize->GetContent()), size, limit, limit);
+
+      if(!schemas::VerifyFBMessageBuffer(verifier))
+      {
+        throw exceptions::OperationFailedException("Bytes to deserialize are not a serialized message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
 
+      if(deserializedMessage->sender() == nullptr || deserializedMessage->topic() == nullptr || deserializedMessage->datagram() == nullptr)
+      {
+        throw exceptions::OperationFailedException("Serialized message is incomplete.");
+      }
+
       return messages::Message(
         deserializedMessage->sender()->str(),
         deserializedMessage->topic()->str(),
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 548e791..93131b4 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -1,5 +1,7 @@
 #include <lamppost/messages/RawDatagram.h>
 
+#include <lamppost/exceptions/OperationFailedException.h>
+
 
 namespace lp
 {
@@ -356,6 +358,11 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
+              if(structure->string_content() == nullptr)
+              {
+                throw exceptions::OperationFailedException("Serialized string value has no content.");
+              }
+
               rawDatagram->SetValue<std::string>(structure->string_content()->str());
               break;
 
@@ -370,11 +377,19 @@ namespace lp
             case schemas::ValueType::ValueType_Boolean:
               rawDatagram->SetValue<bool>(structure->boolean_content());
               break;
+
+            default:
+              throw exceptions::OperationFailedException("Serialized value has an unknown type.");
           }
         } break;
 
         case schemas::DatagramType::DatagramType_List:
         {
+          if(structure->list_content() == nullptr)
+          {
+            throw exceptions::OperationFailedException("Serialized list has no content.");
+          }
+
           rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::List);
           unsigned int length = structure->list_content()->size();
 
@@ -386,6 +401,11 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
+          if(structure->dictionary_keys() == nullptr || structure->dictionary_contents() == nullptr)
+          {
+            throw exceptions::OperationFailedException("Serialized dictionary has no content.");
+          }
+
           rawDatagram = std::make_shared<RawDatagram>(RawDatagramType::Dictionary);
           unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
 
@@ -398,6 +418,9 @@ namespace lp
         case schemas::DatagramType::DatagramType_Empty:
         {
         } break;
+
+        default:
+          throw exceptions::OperationFailedException("Serialized datagram has an unknown type.");
       }
 
       return rawDatagram;
diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..de61beb 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -1,5 +1,7 @@
 #include "Link.h"
 
+#include <lamppost/exceptions/OperationFailedException.h>
+
 
 namespace lp
 {
@@ -233,8 +235,15 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(const exceptions::OperationFailedException& exception)
+          {
+            mLog.Warning("Dropping malformed message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From 36f650db574b2bdf89b6e815f429d8994c82d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:57 +0000
Subject: [PATCH 12/13] fix: keep late answers away from a finished blocking
 request

---
 src/lamppost/bus/ActionConsumer.cpp | 40 +++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 6925044..2f6537e 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -41,33 +41,35 @@ namespace lp
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // The pending response is shared with the callback, which may be invoked after this call gave up waiting.
+      struct PendingResponse
+      {
+        std::mutex mMutex;
+        std::condition_variable mArrived;
+        bool mAnswered = false;
+        messages::Datagram mResponse;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingResponse> pending = std::make_shared<PendingResponse>();
 
       RequestAsync(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram response)
         {
-          if(waiting)
-          {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
-          }
+          std::lock_guard<std::mutex> lock(pending->mMutex);
+          pending->mResponse = response;
+          pending->mAnswered = true;
+          pending->mArrived.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> lock(pending->mMutex);
+      pending->mArrived.wait_for(lock, std::chrono::milliseconds(timeoutMs),
+                                 [pending]
+                                 {
+                                   return pending->mAnswered;
+                                 });
 
-      return response;
+      return pending->mResponse;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
-- 
2.43.0


From 335c9e6c573bc5587f7c553e9fddbeedafcba79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:57 +0000
Subject: [PATCH 13/13] fix: guard the open requests of an action consumer with
 a lock

---
 include/lamppost/bus/ActionConsumer.h |  1 +
 src/lamppost/bus/ActionConsumer.cpp   | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..462c7b4 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -28,6 +28,7 @@ namespace lp
       std::shared_ptr<Subscriber> mResponseSubscriber;
       std::shared_ptr<Publisher> mRequestPublisher;
 
+      std::mutex mOpenRequestsMutex;
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
 
     public:
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 2f6537e..e7d44cc 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -30,7 +30,11 @@ namespace lp
 
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
@@ -74,15 +78,22 @@ namespace lp
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      auto openRequest = mOpenRequests.find(invocationId);
-      if(openRequest != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
+
       {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        auto openRequest = mOpenRequests.find(invocationId);
+        if(openRequest == mOpenRequests.end())
+        {
+          return;
+        }
+
         // Close the request before answering it, so that a callback that throws cannot be answered again.
-        std::function<void(messages::Datagram)> callback = std::move(openRequest->second);
+        callback = std::move(openRequest->second);
         mOpenRequests.erase(openRequest);
-
-        callback(response);
       }
+
+      callback(response);
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0

