From 22697e6331e4956b0c90d6f5657b18ed28ea5342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 01/61] fix: send coordinator reports lost messages after the
 destination is removed

The callbacks may send, which invalidates the destination (and possible iterators).
---
 .../include/common/communication/ipc/send.h   | 11 ++++++--
 .../common/source/communication/ipc/send.cpp  | 25 ++++++++++++-------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/middleware/common/include/common/communication/ipc/send.h b/middleware/common/include/common/communication/ipc/send.h
index c21b2ab..a059462 100644
--- a/middleware/common/include/common/communication/ipc/send.h
+++ b/middleware/common/include/common/communication/ipc/send.h
@@ -68,6 +68,9 @@ namespace casual
 
             strong::file::descriptor::id descriptor() const noexcept { return m_destination.socket().descriptor();}
 
+            //! tries to send all messages
+            //! @returns true if the 'remote' is done. Either all messages are sent, or the destination 
+            //! is lost, and the messages that is not sent is still in the queue (@see error)
             bool send( select::Directive& directive) noexcept;
 
             inline Remote& push( Message&& message)
@@ -76,7 +79,8 @@ namespace casual
                return *this;
             }
 
-            void failed( select::Directive& directive);
+            //! invoke callback (if any) for all messages that is not sent.
+            void error() const noexcept;
 
             inline platform::size::type size() const noexcept { return m_queue.size();}
 
@@ -181,6 +185,9 @@ namespace casual
 
          strong::correlation::id send( const strong::ipc::id& ipc, coordinator::Message&& message);
 
+         //! remove the remote, and report messages that is not sent (if any).
+         void done( std::vector< coordinator::Remote>::iterator position);
+
          //! Take care of devices that can "connect"
          template< typename D>
          auto send_dispatch( D& device, coordinator::Message&& message, traits::priority::tag< 1>) 
@@ -202,7 +209,7 @@ namespace casual
             if( auto found = algorithm::find( m_destinations, device.connector().process().ipc))
             {
                if( found->push( std::move( message)).send( *m_directive))
-                  m_destinations.erase( std::begin( found));
+                  done( std::begin( found));
 
                return result;
             }
diff --git a/middleware/common/source/communication/ipc/send.cpp b/middleware/common/source/communication/ipc/send.cpp
index 4c62f28..724f2fe 100644
--- a/middleware/common/source/communication/ipc/send.cpp
+++ b/middleware/common/source/communication/ipc/send.cpp
@@ -55,17 +55,15 @@ namespace casual
             catch( ...)
             {
                log::line( log, exception::capture(), " failed to send to destination: ", m_destination, " - action: invoke callback (if any) and discard for all pending messages to the destination");
-               failed( directive);
+               directive.write.remove( descriptor());
                return true;
             }
          }
 
-         void Remote::failed( select::Directive& directive)
+         void Remote::error() const noexcept
          {
             for( auto& message : m_queue)
                message.error( m_destination.ipc());
-
-            directive.write.remove( descriptor());
          }
          
       } // coordinator
@@ -79,7 +77,7 @@ namespace casual
          {
             log::line( verbose::log, "found: ", *found);
             if( found->send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               done( std::begin( found));
 
             return true;
          }
@@ -96,11 +94,20 @@ namespace casual
             return ! destination.send( *directive);
          }));
 
-         algorithm::container::erase( m_destinations, erase);
+         // callbacks might send, hence we need to extract before we report.
+         for( auto& remote : algorithm::container::extract( m_destinations, erase))
+            remote.error();
 
          return empty();
       }
 
+      void Coordinator::done( std::vector< coordinator::Remote>::iterator position)
+      {
+         // callbacks might send, hence we need to extract before we report.
+         auto remote = algorithm::container::extract( m_destinations, position);
+         remote.error();
+      }
+
       platform::size::type Coordinator::pending() const noexcept
       {
          return algorithm::accumulate( m_destinations, platform::size::type{}, []( auto count, auto& destination)
@@ -113,8 +120,8 @@ namespace casual
       {
          if( auto found = algorithm::find( m_destinations, ipc))
          {
-            found->failed( *m_directive);
-            algorithm::container::erase( m_destinations, std::begin( found));
+            m_directive->write.remove( found->descriptor());
+            done( std::begin( found));
          }
       }
 
@@ -127,7 +134,7 @@ namespace casual
          if( auto found = algorithm::find( m_destinations, ipc))
          {
             if( found->push( std::move( message)).send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               done( std::begin( found));
          }
          else
          {
-- 
2.43.0


From 81113e4f6d33806abe4f11007e9d112f9d26ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 02/61] fix: removing the last service deadline does not read
 beyond the end

---
 middleware/service/source/manager/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..00b5c2e 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -212,7 +212,7 @@ namespace casual
                {
                   if( auto found = algorithm::find( m_entries, correlation))
                   {
-                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries))
+                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries) && next != std::end( m_entries))
                         return { next->when};
                   }
                   return {};
-- 
2.43.0


From a97648396c5e9c26e4c22731389892d4108534f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 03/61] fix: changed order of a connection takes effect for the
 services it has

---
 middleware/service/include/service/manager/state.h |  3 ++-
 middleware/service/source/manager/state.cpp        | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..949232c 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -313,7 +313,8 @@ namespace casual
                //!   Otherwise, the first instance, and rotate.
                instance::concurrent::id::type next_concurrent( std::span< instance::concurrent::id::type> preferred) noexcept;
 
-               void update_prioritized();
+               //! updates the order for the instance (if associated), and the priority
+               void update_prioritized( instance::concurrent::id::type id, platform::size::type order);
 
                inline const auto& sequential() const noexcept { return m_sequential;}
                inline const auto& concurrent() const noexcept { return m_concurrent;}
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 00b5c2e..42d1795 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -155,8 +155,14 @@ namespace casual
                return algorithm::random::next( m_prioritized_concurrent)->id;
             }
 
-            void Instances::update_prioritized()
+            void Instances::update_prioritized( instance::concurrent::id::type id, platform::size::type order)
             {
+               auto found = algorithm::find( m_concurrent, id);
+
+               if( ! found)
+                  return;
+
+               found->order = order;
                algorithm::stable_sort( m_concurrent);
                prioritize();
             }
@@ -759,7 +765,7 @@ namespace casual
 
             // We need to go through all services and update order/prio
             for( auto service_id : services.indexes())
-               services[ service_id].instances.update_prioritized();
+               services[ service_id].instances.update_prioritized( id, message.order);
 
             // nothing added, no new services available.
             return {};
-- 
2.43.0


From 119bc1b90de121335e2eac0b2ec4106ff92b6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 04/61] fix: instances that are disabled are not reserved, and
 stay disabled

---
 middleware/service/source/manager/state.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 42d1795..bfba48d 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -600,7 +600,8 @@ namespace casual
 
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            // disabled instances are about to be shutdown/killed
+            return instances.sequential[ instance_id].idle() && ! algorithm::contains( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
@@ -690,11 +691,8 @@ namespace casual
          instances.sequential[ instance_id].alias = std::move( message.alias);
 
          // instance might be in "shutdown" mode..
-         if( auto found = algorithm::find( disabled, instance_id))
-         {
-            algorithm::container::erase( disabled, std::begin( found));
+         if( algorithm::find( disabled, instance_id))
             return {};
-         }
 
          // add
          {
-- 
2.43.0


From 5ce3cb75eb85b707e8ad89e4e38620c0672338d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 05/61] fix: advertise from a busy instance takes no pending
 lookup, and unadvertise resolves pending lookups

---
 middleware/service/source/manager/state.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index bfba48d..24a67ce 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -713,7 +713,24 @@ namespace casual
          // remove
          local::remove_services( *this, instance_id, message.services.remove);
 
+         std::vector< state::service::pending::Lookup> result;
+
+         // if the last instance has unadvertised the service, there might be pending requests that needs another lookup
+         if( ! message.services.remove.empty())
+         {
+            auto removed_service = [ &]( auto& pending)
+            {
+               if( auto service_id = services.lookup( pending.request.requested))
+                  return ! services[ service_id].has_sequential() 
+                     && predicate::boolean( algorithm::find( message.services.remove, services[ service_id].information.name));
+               return false;
+            };
+
+            result = algorithm::container::extract( pending.lookups, algorithm::stable::filter( pending.lookups, removed_service));
+         }
+
          // now we need to check if there are pending request that this instance has enabled
+         if( instances.sequential[ instance_id].idle())
          {
             auto requested_service = [ &, instance_id]( auto& pending)
             {
@@ -723,10 +740,10 @@ namespace casual
             };
  
             if( auto found = algorithm::find_if( pending.lookups, requested_service))
-               return { algorithm::container::extract( pending.lookups, std::begin( found))};
+               result.push_back( algorithm::container::extract( pending.lookups, std::begin( found)));
          }
 
-         return {};
+         return result;
       }
 
 
-- 
2.43.0


From 5ca7135c02c98f4cc46e0598fccb030236f421c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 06/61] fix: an ACK outside transaction ends the watch of a
 timed out instance

---
 middleware/service/source/manager/handle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..ec07a22 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -984,13 +984,13 @@ namespace casual
                {
                   log::line( verbose::log, "state.timeout_instances: ", state.timeout_instances);
 
-                  if( ! ack.metric.trid)
-                     return;
-                  
                   if( auto found = algorithm::find( state.timeout_instances, ack.metric.process.pid))
                   {
                      state.timeout_instances.erase( std::begin( found));
 
+                     if( ! ack.metric.trid)
+                        return;
+
                      // Rollback the transaction (again). If TM got instances involved a rollback will be executed, 
                      // otherwise it will be a "no-op".
                      // TODO: we might want to have a dedicated message for this. SM should not order a rollback?
-- 
2.43.0


From bb6fb5a3ed3a8dd44612714985cb66e3602fd8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 07/61] fix: discarded reservations are completed

Deadline is removed, waiting lookups and shutdown are served, and only the reservation
of the lookup in question is discarded. Instances that has timed out are reserved until they ACK.
---
 .../service/include/service/manager/state.h   |   5 +-
 middleware/service/source/manager/handle.cpp  | 116 ++++++++++++------
 2 files changed, 81 insertions(+), 40 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 949232c..2d3aee4 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -147,11 +147,12 @@ namespace casual
                void add( service::id::type service);
                void remove( service::id::type service);
 
-               //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
+               //! @returns and consumes associated caller (process) to the correlation. 'empty' caller if not found.
+               //! @attention the correlation is kept, since the instance is still reserved, and we'll correlate the ACK.
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
                   if( m_caller == correlation)
-                     return std::exchange( m_caller, {});
+                     return { std::exchange( m_caller.process, {}), correlation};
                   return {};
                }
 
diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index ec07a22..578c852 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -231,6 +231,12 @@ namespace casual
             {
                // defined after lookup, below
                void pending( State& state, std::vector< state::service::pending::Lookup>&& pending);
+
+               //! the reservation of the instance is over, let the ones that waits for the instance progress.
+               void idle( State& state, state::instance::sequential::id::type instance_id, const common::message::service::call::ACK& message);
+
+               //! discards the reservation of the instance. That is, there will be no ACK from the instance.
+               void discard( State& state, state::instance::sequential::id::type instance_id);
                   
             } // service::detail::handle
 
@@ -484,10 +490,14 @@ namespace casual
                         }
 
                         // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        state.multiplex.send( message.process.ipc, reply, [ &state, instance_id]( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           if constexpr( ! is_concurrent)
+                           {
+                              // the instance could be gone, or reserved by another caller (since the send might be delayed)
+                              if( state.instances.sequential.contains( instance_id) && state.instances.sequential[ instance_id].caller() == complete.correlation())
+                                 local::service::detail::handle::discard( state, instance_id);
+                           }
                         });
                      }
 
@@ -681,14 +691,19 @@ namespace casual
 
                            // we need to go through all sequential instances.
 
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
+                           for( auto id : state.instances.sequential.indexes())
                            {
-                              if( ! instance.idle() && instance.caller().correlation == correlation)
+                              auto& instance = state.instances.sequential[ id];
+
+                              // a timed out call has been reported, and the instance is busy until it's ACK:ed.
+                              if( ! instance.idle() && instance.caller().correlation == message.correlation 
+                                 && ! algorithm::contains( state.timeout_instances, instance.process.pid))
                               {
                                  log::line( verbose::log, "found reserved instance: ", instance);
-                                 instance.discard();
+                                 detail::handle::discard( state, id);
+                                 break;
                               }
-                           });
+                           }
 
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
@@ -725,6 +740,61 @@ namespace casual
                         
                         algorithm::for_each( pending, lookup);
                      }
+
+                     void idle( State& state, state::instance::sequential::id::type instance_id, const common::message::service::call::ACK& message)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::idle"};
+
+                        if( algorithm::find( state.disabled, instance_id))
+                        {
+                           // we let the shutdown task take care of it.
+                           state.pending.shutdown( message);
+                           return;
+                        }
+
+                        auto& instance = state.instances.sequential[ instance_id];
+
+                        log::line( verbose::log, "instance: ", instance);
+
+                        // Check if there are pending request for services that this
+                        // instance has.
+
+                        auto has_pending = [ &state, instance]( const auto& pending)
+                        {
+                           return instance.service( state.services.lookup( pending.request.requested));
+                        };
+
+                        if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
+                        {
+                           log::line( verbose::log, "found pending: ", *found);
+
+                           auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+
+                           // We now know that there are one idle server that has advertised the
+                           // requested service (we've just marked it as idle...).
+                           // We can use the normal request to get the response
+                           service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                        }
+                     }
+
+                     void discard( State& state, state::instance::sequential::id::type instance_id)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::discard"};
+
+                        auto& instance = state.instances.sequential[ instance_id];
+
+                        common::message::service::call::ACK message;
+                        message.correlation = instance.caller().correlation;
+                        message.metric.process = instance.process;
+
+                        if( auto deadline = state.pending.deadline.remove( message.correlation))
+                           signal::timer::set( deadline.value());
+
+                        algorithm::container::erase( state.timeout_instances, instance.process.pid);
+                        instance.discard();
+
+                        idle( state, instance_id, message);
+                     }
                   } // handle
 
                   
@@ -1038,37 +1108,7 @@ namespace casual
 
                   state.unreserve( instance_id, message.metric);
 
-                  if( auto found = algorithm::find( state.disabled, instance_id))
-                  {
-                     // we let the shutdown task take care of it.
-                     state.pending.shutdown( message);
-                     return;
-                  }
-
-                  auto& instance = state.instances.sequential[ instance_id];
-
-                  log::line( verbose::log, "instance: ", instance);
-
-                  // Check if there are pending request for services that this
-                  // instance has.
-
-                  auto has_pending = [ &state, instance]( const auto& pending)
-                  {
-                     return instance.service( state.services.lookup( pending.request.requested));
-                  };
-
-                  if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
-                  {
-                     log::line( verbose::log, "found pending: ", *found);
-
-                     auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
-
-                     // We now know that there are one idle server that has advertised the
-                     // requested service (we've just marked it as idle...).
-                     // We can use the normal request to get the response
-                     service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
-                  }
- 
+                  service::detail::handle::idle( state, instance_id, message);
                };
             }
 
-- 
2.43.0


From 4b13d5d9b1d6344415c8314b339957143a1e8504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 08/61] fix: pending lookups are served in request order and
 sets the deadline timer

---
 middleware/service/source/manager/handle.cpp | 47 +++++++++++++-------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 578c852..89e9dbf 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -379,7 +379,20 @@ namespace casual
                      return caller_deadline;
                   };
 
-                  void discover( State& state, common::message::service::lookup::Request&& message, const std::string& name)
+                  //! adds to the pending lookups, in the order of when the lookups was requested. A lookup might
+                  //! be pending several times, @p waited is how long the lookup has been pending so far.
+                  void add_pending( State& state, common::message::service::lookup::Request&& message, platform::time::point::type now, platform::time::unit waited)
+                  {
+                     const auto when = now - waited;
+
+                     auto later = []( auto when, auto& lookup){ return when < lookup.when;};
+
+                     state.pending.lookups.emplace(
+                        std::upper_bound( std::begin( state.pending.lookups), std::end( state.pending.lookups), when, later),
+                        std::move( message), when);
+                  }
+
+                  void discover( State& state, common::message::service::lookup::Request&& message, const std::string& name, platform::time::unit waited)
                   {
                      Trace trace{ "service::manager::handle::local::service::detail::discover"};
 
@@ -406,7 +419,7 @@ namespace casual
                            // we sent the request OR the caller is willing to wait for future 
                            // advertised services
 
-                           state.pending.lookups.emplace_back( std::move( message), platform::time::clock::type::now());
+                           detail::add_pending( state, std::move( message), platform::time::clock::type::now(), waited);
                            send_reply.release();
                         }
                      }
@@ -444,7 +457,10 @@ namespace casual
                         reply.service = service.information;
                         reply.state = decltype( reply.state)::idle;
                         reply.process = destination;
-                        reply.pending = pending;
+
+                        // context::wait is not relevant for pending time.
+                        if( message.context.semantic != decltype( message.context.semantic)::wait)
+                           reply.pending = pending;
 
                         if( service.information.name != message.requested)
                            reply.service.requested = message.requested;
@@ -501,7 +517,7 @@ namespace casual
                         });
                      }
 
-                     void pending( State& state, state::service::id::type service_id, common::message::service::lookup::Request& message)
+                     void pending( State& state, state::service::id::type service_id, common::message::service::lookup::Request& message, platform::time::unit waited)
                      {
                         auto reply = common::message::reverse::type( message);
                         reply.service = state.services[ service_id].information;
@@ -532,16 +548,17 @@ namespace casual
 
                               if( auto deadline = detail::calculate_deadline( state.services[ service_id], now, message.deadline))
                                  if( state.services[ service_id].has_sequential())
-                                    state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation});
+                                    if( auto next = state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation}))
+                                       signal::timer::set( next.value() - now);
 
-                              state.pending.lookups.emplace_back( std::move( message), now);
+                              detail::add_pending( state, std::move( message), now, waited);
 
                               break;
                            }
                            case Semantic::wait:
                            {
                               // we know the service exists, and it got instances, we do a regular pending.
-                              state.pending.lookups.emplace_back( std::move( message), platform::time::clock::type::now());
+                              detail::add_pending( state, std::move( message), platform::time::clock::type::now(), waited);
 
                               break;
                            }
@@ -564,7 +581,7 @@ namespace casual
                            if( auto instance_id = state.reserve_sequential( service_id, get_caller( message), message.correlation))
                               dispatch::lookup::reply( state, service_id, instance_id, message, pending);
                            else
-                              dispatch::lookup::pending( state, service_id, message);
+                              dispatch::lookup::pending( state, service_id, message, pending);
                            return true;
                         }
                         return false;
@@ -636,11 +653,11 @@ namespace casual
                               break;
                            case Enum::external_discovery:
                               if( ! dispatch::lookup::external_internal( state, service_id, message, pending))
-                                 discover( state, std::move( message), state.services[ service_id].information.name); // origin name for discovery?
+                                 discover( state, std::move( message), state.services[ service_id].information.name, pending); // origin name for discovery?
                               break;
                            case Enum::internal:
                               if( ! dispatch::lookup::external_internal( state, service_id, message, pending))
-                                 discover( state, std::move( message), state.services[ service_id].information.name); // origin name for discovery?
+                                 discover( state, std::move( message), state.services[ service_id].information.name, pending); // origin name for discovery?
                               break;
                         }
                      }
@@ -648,7 +665,7 @@ namespace casual
                      {
                         // we always discover, if 'requester' is internal.
                         auto name = message.requested;
-                        discover( state, std::move( message), name);
+                        discover( state, std::move( message), name, pending);
                      }
                      else
                      {
@@ -731,11 +748,7 @@ namespace casual
 
                         auto lookup = [ &state]( auto& pending)
                         {
-                           // context::wait is not relevant for pending time.
-                           if( pending.request.context.semantic == decltype( pending.request.context.semantic)::wait)
-                              service::detail::lookup( state, pending.request);
-                           else
-                              service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                           service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
                         };
                         
                         algorithm::for_each( pending, lookup);
@@ -992,7 +1005,7 @@ namespace casual
 
                               // The requested service is now available, use
                               // the lookup to decide how to progress.
-                              service::detail::lookup( state, pending.request);
+                              service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
                            }
                            else if( found->request.context.semantic == decltype( found->request.context.semantic)::wait)
                            {
-- 
2.43.0


From 9a29dd1c826474794c3c7103c584441b6b64388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 09/61] fix: queue-group - answer prepare when the queuebase is
 persistent

The prepare reply was sent directly, before the enqueues and dequeues of the transaction were
written. A crash of the queue-group between the prepare reply and the next persist lost the
work of a transaction that TM might already have decided to commit.
---
 middleware/queue/source/group/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 04ec089..ac71054 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -485,7 +485,8 @@ namespace casual
                            reply.trid = message.trid;
                            reply.state = common::code::xa::ok;
 
-                           state.multiplex.send( message.process.ipc, reply);
+                           // what is prepared has to survive a crash, we send reply when we're in persistent state
+                           local::detail::persistent::reply( state, message.process, std::move( reply));
                         };
                      }
                   } // prepare
-- 
2.43.0


From eee10bc7937947d417371df02aa47b6d94b67097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 10/61] fix: select pump - invoke idle for messages that are
 consumed from cache

Messages that were cached (when a read was interrupted by a signal, for example) are consumed
after the idle condition has been invoked, and the pump went on to block. What those messages left
for the idle condition, replies that waits for the queuebase to be persistent for example, was not
taken care of until something else arrived.
---
 middleware/common/include/common/communication/select.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/communication/select.h b/middleware/common/include/common/communication/select.h
index 117b5ed..e83e62d 100644
--- a/middleware/common/include/common/communication/select.h
+++ b/middleware/common/include/common/communication/select.h
@@ -229,13 +229,18 @@ namespace casual
                         // make sure we try to consume from the 'consume-handlers' before
                         // we might block forever. This gives possibilities to consume cached messages
                         // that wont be triggered via multiplexing on file descriptors
+                        bool consumed = false;
                         while( detail::consume::dispatch( handlers...))
-                           ; // no-op
+                           consumed = true;
 
                         // we might be done after idle, and consumed
                         if( condition::detail::invoke< condition::detail::tag::done>( condition))
                            return;
 
+                        // what we've consumed might have stuff for idle to take care of, before we block.
+                        if( consumed)
+                           continue;
+
                         // we block in `detail::select` with the read and write sets.
                         handle::dispatch( 
                            detail::select( directive),
-- 
2.43.0


From 39dc7fd665ac2d4bb42c281aa7e4200c080598cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 11/61] fix: queue-group - timer for messages that are
 available in the future

A blocking dequeue set the timer to the earliest message in the queue, whether or not
this already was available (but didn't match the selector). This gave an alarm directly, over and over again,
and the messages that actually are available in the future did not get a timer.
The timer was also overwritten when another pending dequeue got its message.
---
 .../queue/include/queue/group/queuebase.h     |  3 +++
 .../include/queue/group/queuebase/statement.h |  1 +
 middleware/queue/source/group/handle.cpp      | 15 +++++++++----
 middleware/queue/source/group/queuebase.cpp   | 21 +++++++++++++++++++
 .../source/group/queuebase/statement.cpp      |  5 +++++
 5 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/middleware/queue/include/queue/group/queuebase.h b/middleware/queue/include/queue/group/queuebase.h
index 280eef9..733c300 100644
--- a/middleware/queue/include/queue/group/queuebase.h
+++ b/middleware/queue/include/queue/group/queuebase.h
@@ -157,6 +157,9 @@ namespace casual
          //! @returns the earliest available message in the queue, if any.
          std::optional< platform::time::point::type> available( common::strong::queue::id queue) const;
 
+         //! @returns when the earliest message in the queue that is not yet available (at `now`) will be, if any.
+         std::optional< platform::time::point::type> available( common::strong::queue::id queue, const platform::time::point::type& now) const;
+
          //! @return number of restored messages for the queue
          platform::size::type restore( common::strong::queue::id id);
 
diff --git a/middleware/queue/include/queue/group/queuebase/statement.h b/middleware/queue/include/queue/group/queuebase/statement.h
index f2736ea..7104268 100644
--- a/middleware/queue/include/queue/group/queuebase/statement.h
+++ b/middleware/queue/include/queue/group/queuebase/statement.h
@@ -44,6 +44,7 @@ namespace casual
          {
             sql::database::Statement queues;
             sql::database::Statement message;
+            sql::database::Statement future;
          } available;
 
 
diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index ac71054..28496fb 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -328,7 +328,7 @@ namespace casual
                      else if( message.block)
                      {
                         // check if we need to set a timer
-                        auto available = state.queuebase.available( message.queue);
+                        auto available = state.queuebase.available( message.queue, now);
                         if( available)
                         {
                            auto wanted = available.value() - now;
@@ -903,12 +903,19 @@ namespace casual
                            }
                         } 
 
-                        // take care of not available ( yet). We find the earliest and set a timer for that
+                        // take care of not available ( yet), for all that are still pending. We find the earliest and set a timer for that
                         {
-                           auto earliest_future = algorithm::min( std::get< 1>( split), []( auto& l, auto& r){ return l.when < r.when;});
+                           std::optional< platform::time::point::type> earliest_future;
+
+                           auto queues = algorithm::transform( state.pending.dequeues, transform_id);
+
+                           for( auto& queue : algorithm::unique( algorithm::sort( queues)))
+                              if( auto when = state.queuebase.available( queue, now))
+                                 if( ! earliest_future || when.value() < earliest_future.value())
+                                    earliest_future = when;
 
                            if( earliest_future)
-                              common::signal::timer::set( earliest_future->when - now);
+                              common::signal::timer::set( earliest_future.value() - now);
                            else 
                               common::signal::timer::unset();
                         }
diff --git a/middleware/queue/source/group/queuebase.cpp b/middleware/queue/source/group/queuebase.cpp
index cd0fcb4..2c906a7 100644
--- a/middleware/queue/source/group/queuebase.cpp
+++ b/middleware/queue/source/group/queuebase.cpp
@@ -580,6 +580,27 @@ namespace casual
          return available;
       }
 
+      std::optional< platform::time::point::type> Queuebase::available( common::strong::queue::id queue, const platform::time::point::type& now) const
+      {
+         Trace trace{ "queue::Queuebase::available earliest future"};
+         log::line( verbose::log, "queue: ", queue, ", now: ", now);
+
+         auto query = m_statement.available.future.query( queue.underlying(), now);
+         sql::database::Row row;
+
+         if( ! query.fetch( row))
+            return {};
+
+         std::optional< platform::time::point::type> available;
+
+         // "SELECT MIN( m.available)"
+         sql::database::row::get( row, 
+            available
+         );
+
+         return available;
+      }
+
       platform::size::type Queuebase::restore( common::strong::queue::id queue)
       {
          Trace trace{ "queue::Queuebase::restore"};
diff --git a/middleware/queue/source/group/queuebase/statement.cpp b/middleware/queue/source/group/queuebase/statement.cpp
index cf255a1..6e98a68 100644
--- a/middleware/queue/source/group/queuebase/statement.cpp
+++ b/middleware/queue/source/group/queuebase/statement.cpp
@@ -132,6 +132,11 @@ WHERE queue = :queue AND state = 2 AND properties = :properties AND available <
                "SELECT MIN( m.available)"
                " FROM message m WHERE m.queue = :queue AND m.state = 2;"
             );
+
+            result.available.future = connection.precompile(
+               "SELECT MIN( m.available)"
+               " FROM message m WHERE m.queue = :queue AND m.state = 2 AND m.available >= :now;"
+            );
          }
 
          result.id = connection.precompile( "SELECT id FROM queue where name = :name;");
-- 
2.43.0


From 7068a13cec77051e648f9b9fa27ce2bd9188070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 12/61] fix: a transaction whose outcome is being decided is
 not rolled back when its owner dies

---
 middleware/transaction/source/manager/handle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..c3b054c 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -1151,8 +1151,13 @@ namespace casual
                         return true;
                      });
 
+                     // only transactions that no one has started to prepare, commit or rollback. For the others the outcome is, or
+                     // will be, decided, and must not be altered.
                      auto trids = common::algorithm::accumulate( state.transactions, std::vector< common::transaction::ID>{}, [ pid = message.state.pid]( auto result, auto& transaction)
                      {
+                        if( transaction.stage > state::transaction::Stage::involved)
+                           return result;
+
                         if( ! transaction.branches.empty() && transaction.branches.back().trid.owner().pid == pid)
                            result.push_back( transaction.branches.back().trid);
 
-- 
2.43.0


From e851ca460d5d26e2acf05fdc98eb7782be2f7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:11 +0000
Subject: [PATCH 13/61] fix: fan-out - callbacks may start new fan-outs

---
 .../include/common/message/coordinate.h       | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/middleware/common/include/common/message/coordinate.h b/middleware/common/include/common/message/coordinate.h
index c1ed9f8..effac29 100644
--- a/middleware/common/include/common/message/coordinate.h
+++ b/middleware/common/include/common/message/coordinate.h
@@ -160,12 +160,15 @@ namespace casual
             {
                if( auto found = algorithm::find( m_lookup, message.correlation))
                {
-                  // remove the entry if it's done.
-                  if( found->second->coordinate( std::move( message)))
-                     algorithm::container::erase( m_entries, found->second);
+                  auto entry = found->second;
 
                   // always remove from lookup to keep the state as small as possible
+                  // before the (possible) callback, which might add new 'fan outs'.
                   m_lookup.erase( std::begin( found));
+
+                  // remove the entry if it's done.
+                  if( entry->coordinate( std::move( message)))
+                     algorithm::container::erase( m_entries, entry);
                }
             }
 
@@ -176,18 +179,19 @@ namespace casual
             inline auto failed( I&& id) -> decltype( void( std::declval< const id_type&>() == id))
             {
                // this will potentially be slow...
-               algorithm::container::erase_if( m_entries, [ &]( auto& entry)
+               // callbacks might add new 'fan outs', hence we can't traverse `m_entries` directly
+               for( auto& entry : std::vector{ m_entries})
                {
                   if( auto correlations = entry->failed( id); ! correlations.empty())
                   {
-                     // remove all lookups for the entry, and return true to erase the entry it self
+                     // remove all lookups for the entry, and erase the entry it self if it's done
                      for( auto& correlation : correlations)
                          m_lookup.erase( correlation);
 
-                     return entry->done();
+                     if( entry->done())
+                        algorithm::container::erase( m_entries, entry);
                   }
-                  return false;
-               });
+               }
             }
 
             inline auto empty() const noexcept { return m_entries.empty() && m_lookup.empty();}
-- 
2.43.0


From c5f2b28d9d2f47d8c331a05c201be09ddebced21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 14/61] fix: buffer - a received empty buffer is a buffer, not
 null

---
 middleware/common/source/buffer/type.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/buffer/type.cpp b/middleware/common/source/buffer/type.cpp
index 026a674..e7a2bd3 100644
--- a/middleware/common/source/buffer/type.cpp
+++ b/middleware/common/source/buffer/type.cpp
@@ -88,10 +88,17 @@ namespace casual
          static_assert( ! concepts::copyable< Buffer>);
 
          Buffer::Buffer( Payload payload, Inbound)
-            : payload( std::move( payload)), m_inbound{ true}
-         {}
+            : Buffer( std::move( payload))
+         {
+            m_inbound = true;
+         }
 
-         Buffer::Buffer( Payload payload) : payload( std::move( payload)) {}
+         Buffer::Buffer( Payload payload) : payload( std::move( payload)) 
+         {
+            // an empty payload might not have any memory (if it's received), we need it for the handle
+            if( ! this->payload.data.data())
+               this->payload.data.reserve( 1);
+         }
 
          Buffer::Buffer( string::Argument type, platform::binary::size::type size)
             : payload( std::move( type), size) {}
-- 
2.43.0


From d574798f798ca128001d34e1e0c3612d17f99d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 15/61] fix: string buffer - never look past what is allocated

---
 middleware/buffer/source/string.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/middleware/buffer/source/string.cpp b/middleware/buffer/source/string.cpp
index a6e7bd3..33a8dd7 100644
--- a/middleware/buffer/source/string.cpp
+++ b/middleware/buffer/source/string.cpp
@@ -36,17 +36,13 @@ namespace casual
             {
                auto validate( const common::buffer::Payload& payload)
                {
-                  auto string_like = common::binary::span::to_string_like( payload.data);
-                  const auto size = std::size( string_like);
-                  const auto used = std::strlen( string_like.data()) + 1;
-
                   // We do need to check that it is a real null-terminated
                   // string within allocated area
 
-                  if( used > size)
-                     throw std::invalid_argument{"string is longer than allocated size"};
+                  if( auto found = common::algorithm::find( payload.data, std::byte{ '\0'}))
+                     return std::distance( std::begin( payload.data), std::begin( found)) + 1;
 
-                  return used;
+                  throw std::invalid_argument{"string is longer than allocated size"};
                }
             } // local
 
@@ -194,10 +190,7 @@ namespace casual
 
                   value = reinterpret_cast< const char*>( buffer.handle().underlying());
 
-                  const auto count = std::strlen( value) + 1;
-                  const auto space = buffer.payload.data.size();
-
-                  if( count > space)
+                  if( ! common::algorithm::find( buffer.payload.data, std::byte{ '\0'}))
                   {
                      // We need to report this
                      return CASUAL_STRING_OUT_OF_BOUNDS;
-- 
2.43.0


From c4f391c24903e6125be24bc648d7f7982fdf73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 16/61] fix: field buffer - refuse truncated and negative sizes
 of foreign memory

---
 middleware/buffer/source/field.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/middleware/buffer/source/field.cpp b/middleware/buffer/source/field.cpp
index 8bba3bc..5180944 100644
--- a/middleware/buffer/source/field.cpp
+++ b/middleware/buffer/source/field.cpp
@@ -82,16 +82,19 @@ namespace casual
 
                   while( cursor < end)
                   {
+                     if( std::distance( cursor, end) < data_offset)
+                        throw std::invalid_argument{ "buffer is invalid"};
+
                      const auto item = local::decode< item_type>( &*cursor + item_offset);
                      const auto size = local::decode< size_type>( &*cursor + size_offset);
 
+                     if( size < 0 || size > std::distance( cursor, end) - data_offset)
+                        throw std::invalid_argument{ "buffer is invalid"};
+
                      index[ item].push_back( std::distance( begin, cursor));
 
                      std::advance( cursor, data_offset + size);
                   }
-
-                  if( cursor > end)
-                     throw std::invalid_argument{ "buffer is invalid"};
                }
 
                Buffer( Buffer&&) noexcept = default;
-- 
2.43.0


From 4ad44096ac8978adaabf1f4c483090a06c401ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 17/61] fix: order buffer - never read past the end

---
 middleware/buffer/source/order.cpp | 45 +++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/middleware/buffer/source/order.cpp b/middleware/buffer/source/order.cpp
index 6d76583..777cead 100644
--- a/middleware/buffer/source/order.cpp
+++ b/middleware/buffer/source/order.cpp
@@ -290,24 +290,43 @@ namespace casual
                   return CASUAL_ORDER_SUCCESS;
                }
 
+               //! checks that there are `size` bytes available in [where, end)
+               void available( const_data_type where, const_data_type end, const size_type size)
+               {
+                  if( size < 0 || size > end - where)
+                     throw std::out_of_range{ "not enough data in buffer"};
+               }
+
                template<typename T>
-               size_type select( const_data_type where, T& value) noexcept
+               size_type select( const_data_type where, const_data_type end, T& value)
                {
+                  available( where, end, common::network::byteorder::bytes< T>());
+
                   //value = common::network::byteorder::decode< T>( *std::start_lifetime_as< common::network::byteorder::type< T>>( where));
                   value = common::network::byteorder::decode< T>( *reinterpret_cast< const common::network::byteorder::type< T>*>( where));
                   return common::network::byteorder::bytes< T>();
                }
 
-               size_type select( const_data_type where, const char*& value) noexcept
+               size_type select( const_data_type where, const_data_type end, const char*& value)
                {
+                  available( where, end, 1);
+
+                  // the terminator has to be within the buffer
+                  const auto terminator = std::find( where, end, std::byte{ '\0'});
+                  available( terminator, end, 1);
+
                   value = reinterpret_cast< const char*>( where);
-                  return std::strlen( value) + 1;
+                  return terminator - where + 1;
                }
 
-               size_type select( const_data_type where, const char*& data, size_type& size) noexcept
+               size_type select( const_data_type where, const_data_type end, const char*& data, size_type& size)
                {
                   // select first size chunk
-                  const auto read = select( where, size);
+                  size_type count{};
+                  const auto read = select( where, end, count);
+                  available( where + read, end, count);
+
+                  size = count;
                   data = reinterpret_cast< const char*>( where + read);
                   return read + size;
                }
@@ -322,20 +341,12 @@ namespace casual
                      // See how much have been read so far
                      const auto read = buffer.consumed();
 
-                     // Read the data and let us not how much
-                     const auto size = select( buffer.handle().underlying() + read, std::forward<A>( arguments)...);
-
-                     // Calculate the new cursor
-                     const auto consumed = read + size;
-
-                     if( consumed > buffer.utilized())
-                     {
-                        // We need to report this
-                        return CASUAL_ORDER_OUT_OF_BOUNDS;
-                     }
+                     // Read the data and let us not how much. This will throw if there isn't enough data left
+                     const const_data_type begin = buffer.handle().underlying();
+                     const auto size = select( begin + read, begin + buffer.utilized(), std::forward<A>( arguments)...);
 
                      // Update the cursor
-                     buffer.consumed( consumed);
+                     buffer.consumed( read + size);
                   }
                   catch( ...)
                   {
-- 
2.43.0


From 26f3cf7fd5dcf1f17dfa3484bb118a3e6d6e235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 18/61] fix: native binary archives - truncated or corrupt
 input is an error, not a terminate or an endless allocation

---
 middleware/common/include/common/memory.h     | 23 ++++++++++++------
 .../include/common/serialize/native/binary.h  | 24 ++++++++++++++-----
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/middleware/common/include/common/memory.h b/middleware/common/include/common/memory.h
index 0a04ed3..253fc12 100644
--- a/middleware/common/include/common/memory.h
+++ b/middleware/common/include/common/memory.h
@@ -11,6 +11,8 @@
 
 #include "common/range.h"
 #include "common/traits.h"
+#include "common/code/raise.h"
+#include "common/code/casual.h"
 
 #include <memory>
 
@@ -39,6 +41,16 @@ namespace casual
             template< typename T>
             concept binary_copyable = std::is_trivially_copyable_v< T> && ! concepts::binary::like< T>;
 
+            //! the source is most likely something we've received from _the outside_, hence 
+            //! it could be truncated/corrupt.
+            inline void check_size( const auto& source, platform::size::type offset, platform::size::type size)
+            {
+               const platform::size::type available = std::distance( std::begin( source), std::end( source));
+
+               if( size < 0 || offset < 0 || size > available - offset)
+                  code::raise::error( code::casual::invalid_document, "not enough source memory - wanted: ", size, " at offset: ", offset, " available: ", available);
+            }
+
 
          } // detail
 
@@ -86,12 +98,9 @@ namespace casual
          auto copy( S&& source, platform::size::type offset, T& value)
          {
             auto size = memory::size( value);
-            auto first = std::begin( source) + offset;
-            auto last = std::end( source);
-
-            assert( std::distance( first, last) >=  size);
+            detail::check_size( source, offset, size);
 
-            std::memcpy( &value, &(*first), size);
+            std::memcpy( &value, source.data() + offset, size);
 
             return offset + size;
          }
@@ -100,11 +109,11 @@ namespace casual
          auto copy( S&& source, platform::size::type offset, T&& value)
          {
             auto size = std::distance( std::begin( value), std::end( value));
+            detail::check_size( source, offset, size);
+
             auto first = std::begin( source) + offset;
             auto last = first + size;
 
-            assert( std::end( source) >= last);
-
             std::copy( first, last, std::begin( value));
 
             return offset + size;
diff --git a/middleware/common/include/common/serialize/native/binary.h b/middleware/common/include/common/serialize/native/binary.h
index d48331e..77681c5 100644
--- a/middleware/common/include/common/serialize/native/binary.h
+++ b/middleware/common/include/common/serialize/native/binary.h
@@ -163,7 +163,12 @@ namespace casual
 
             inline std::tuple< platform::size::type, bool> container_start( platform::size::type size, const char*) 
             { 
-               return { read_size(), true};
+               auto result = read_size();
+
+               // every element takes at least 1 byte, hence a size that is bigger than what's left can't be correct
+               memory::detail::check_size( m_buffer, m_offset, result);
+
+               return { result, true};
             }
             inline void container_end( const char*) {} // no-op
 
@@ -179,21 +184,21 @@ namespace casual
 
             bool read( std::string& value, const char*)
             {
-               value.resize( read_size());
+               value.resize( read_available_size());
                consume( common::binary::span::make( value));
                return true;
             }
 
             bool read( std::u8string& value, const char*)
             {
-               value.resize( read_size());
+               value.resize( read_available_size());
                consume( common::binary::span::make( value));
                return true;
             }
 
             bool read( platform::binary::type& value, const char*)
             {
-               value.resize( read_size());
+               value.resize( read_available_size());
                consume( value);
                return true;
             }
@@ -209,9 +214,8 @@ namespace casual
             template< concepts::binary::like Range>
             void consume( Range&& range)
             {
+               memory::detail::check_size( m_buffer, m_offset, range::size( range));
                auto source = range::make( std::begin( m_buffer) + m_offset, range.size());
-               casual::assertion( m_offset + source.size() <= range::size( m_buffer), "m_offset: ", m_offset, ", source.size(): ", source.size(), " buffer.size: ", range::size( m_buffer));
-               //assert( m_offset + source.size() <= range::size( m_buffer));
 
                algorithm::copy( source, range);
                m_offset += range.size();
@@ -224,6 +228,14 @@ namespace casual
                return size;
             }
 
+            //! @returns the size of the following (contiguous) memory, that is guaranteed to be in the buffer.
+            platform::size::type read_available_size()
+            {
+               auto size = read_size();
+               memory::detail::check_size( m_buffer, m_offset, size);
+               return size;
+            }
+
             const platform::binary::type& m_buffer;
             platform::size::type m_offset = 0;
          };
-- 
2.43.0


From 945163f1a1d0cdab21154180e0ad7b0943a65c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 19/61] fix: json archive - exact doubles, range of short,
 documents that are not objects, deeply nested documents

---
 middleware/common/source/serialize/json.cpp | 28 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/middleware/common/source/serialize/json.cpp b/middleware/common/source/serialize/json.cpp
index 7da1ec9..015200c 100644
--- a/middleware/common/source/serialize/json.cpp
+++ b/middleware/common/source/serialize/json.cpp
@@ -26,6 +26,7 @@
 #include <iterator>
 #include <istream>
 #include <functional>
+#include <utility>
 
 #include <iostream>
 
@@ -74,13 +75,20 @@ namespace casual
                      } // check
 
                             
+                     namespace parser
+                     {
+                        // doubles should be exactly the ones that was written, and the depth of the document
+                        // should not be limited by the size of the stack.
+                        constexpr auto flags = rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag | rapidjson::kParseIterativeFlag;
+                     } // parser
+
                      const rapidjson::Document& parse( rapidjson::Document& document, const char* json)
                      {
                         // To support empty documents
                         if( ! json || json[ 0] == '\0')
-                           document.Parse( "{}");
+                           document.Parse< parser::flags>( "{}");
                         else
-                           document.Parse( json);
+                           document.Parse< parser::flags>( json);
                         
                         if( document.HasParseError())
                            code::raise::error( code::casual::invalid_document, rapidjson::GetParseError_En( document.GetParseError()));
@@ -278,6 +286,10 @@ namespace casual
 
                            auto node = m_stack.back();
 
+                           // This check is to avoid terminate (via assert)
+                           if( ! node->IsObject())
+                              code::raise::error( code::casual::invalid_node, "expected object - name: ", name);
+
                            if( auto found = node->FindMember( name); found != node->MemberEnd())
                               return &found->value;
 
@@ -304,7 +316,14 @@ namespace casual
                         static void read( const rapidjson::Value* node, bool& value)
                         { value = check::trivial( node, &rapidjson::Value::IsBool, &rapidjson::Value::GetBool); }
                         static void read( const rapidjson::Value* node, short& value)
-                        { value = check::trivial( node, &rapidjson::Value::IsInt, &rapidjson::Value::GetInt); }
+                        { 
+                           auto number = check::trivial( node, &rapidjson::Value::IsInt, &rapidjson::Value::GetInt);
+
+                           if( ! std::in_range< short>( number))
+                              code::raise::error( code::casual::invalid_node, "value out of range: ", number);
+
+                           value = number;
+                        }
                         static void read( const rapidjson::Value* node, int& value)
                         { value = check::trivial( node, &rapidjson::Value::IsInt, &rapidjson::Value::GetInt); }
                         static void read( const rapidjson::Value* node, long& value)
@@ -483,7 +502,8 @@ namespace casual
                            m_document.Swap( document);
                            m_allocator = &m_document.GetAllocator();
 
-                           m_stack.erase( std::begin( m_stack) + 1, std::end( m_stack));
+                           m_stack.clear();
+                           m_stack.push_back( &m_document);
                            m_document.SetObject();
                         }
 
-- 
2.43.0


From 3b6f4e741d5827724a7522eb3c8f2846da1d9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 20/61] fix: yaml archive - control characters as char, scalar
 where a sequence is expected, size of fixed binary

---
 middleware/common/source/serialize/yaml.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/serialize/yaml.cpp b/middleware/common/source/serialize/yaml.cpp
index b354146..75aecfa 100644
--- a/middleware/common/source/serialize/yaml.cpp
+++ b/middleware/common/source/serialize/yaml.cpp
@@ -150,11 +150,11 @@ namespace casual
 
                         size = node.size();
 
-                        if( size)
+                        if( size || node.IsScalar())
                         {
                            // If there are elements, it must be a sequence
                            if( node.Type() != YAML::NodeType::Sequence)
-                              code::raise::error( code::casual::invalid_document, "expected sequence for node: ", name);
+                              code::raise::error( code::casual::invalid_document, "expected sequence for node: ", name ? name : "");
 
                            // We stack'em in reverse order
                            for( auto index = size; index > 0; --index)
@@ -309,6 +309,10 @@ namespace casual
                         YAML::Binary binary;
                         consume( node, binary);
                         auto span = binary::span::make( binary.data(), binary.size());
+
+                        if( range::size( span) != range::size( value))
+                           code::raise::error( code::casual::invalid_node, "binary size mismatch - wanted: ", range::size( value), " got: ", range::size( span));
+
                         algorithm::copy( span, value);
                      }
 
@@ -425,7 +429,7 @@ namespace casual
 
                      void write( char value)
                      {
-                        m_output << YAML::SingleQuoted << transcode::utf8::string::encode( std::string{ value});
+                        m_output << YAML::DoubleQuoted << transcode::utf8::string::encode( std::string{ value});
                      }
 
                      void write( std::string_view value)
-- 
2.43.0


From 53f6f9c12f9659ed78daf00ff781d0aa7d16508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 21/61] fix: xml archive - exact floating point values, writer
 possible to use after consume

---
 middleware/common/source/serialize/xml.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/serialize/xml.cpp b/middleware/common/source/serialize/xml.cpp
index 8dd1f23..71e9d4e 100644
--- a/middleware/common/source/serialize/xml.cpp
+++ b/middleware/common/source/serialize/xml.cpp
@@ -20,6 +20,9 @@
 
 #include <iterator>
 #include <algorithm>
+#include <array>
+#include <charconv>
+#include <concepts>
 
 
 namespace casual
@@ -401,6 +404,8 @@ namespace casual
                         {
                            m_document.save( xml, " ");
                            m_document.reset();
+                           m_stack.clear();
+                           m_stack.push_back( document());
                         }
 
                      private:
@@ -421,7 +426,14 @@ namespace casual
                         template< concepts::arithmetic T>
                         void write( T value)
                         {
-                           set( std::to_string( value));
+                           if constexpr( std::floating_point< T>)
+                           {
+                              // the shortest representation that is exactly the same value when it's read.
+                              std::array< char, 64> buffer;
+                              set( std::string_view{ buffer.data(), std::to_chars( buffer.data(), buffer.data() + buffer.size(), value).ptr});
+                           }
+                           else
+                              set( std::to_string( value));
                         }
 
                         // A few overloads
-- 
2.43.0


From d466ad5a272e012715814cd2a869669d9e32d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 22/61] fix: ini archive - exact floating point values, numbers
 that does not fit, sections and values mixed up, writer possible to use after
 consume

---
 middleware/common/source/serialize/ini.cpp | 34 ++++++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/serialize/ini.cpp b/middleware/common/source/serialize/ini.cpp
index 403dab6..21c7d91 100644
--- a/middleware/common/source/serialize/ini.cpp
+++ b/middleware/common/source/serialize/ini.cpp
@@ -16,6 +16,9 @@
 
 #include "common/flag.h"
 
+#include <array>
+#include <charconv>
+#include <concepts>
 #include <sstream>
 #include <iterator>
 #include <algorithm>
@@ -309,6 +312,11 @@ namespace casual
                               else
                                  return false;
                            }
+                           else if( ! m_data_stack.empty())
+                           {
+                              // we're in a container, and its elements are values
+                              code::raise::error( code::casual::invalid_node, "expected section");
+                           }
 
                            // Either we found the node or we assume it's an 'unnamed' container
                            // element that is already pushed to the stack
@@ -333,6 +341,11 @@ namespace casual
                               else
                                  return false;
                            }
+                           else if( m_data_stack.empty())
+                           {
+                              // we're in a container, and its elements are sections
+                              code::raise::error( code::casual::invalid_node, "expected value");
+                           }
 
                            // Either we found the node or we assume it's an 'unnamed' container
                            // element that is already pushed to the stack
@@ -364,7 +377,12 @@ namespace casual
                         template<typename T>
                         void read( T& value)
                         {
-                           value = string::from< T>( *m_data_stack.back());
+                           const auto data = trim( *m_data_stack.back());
+                           const auto result = std::from_chars( data.data(), data.data() + data.size(), value);
+
+                           // the whole content has to be a number, that fits.
+                           if( result.ec != std::errc{} || result.ptr != data.data() + data.size())
+                              code::raise::error( code::casual::invalid_node, "unexpected type - value: ", data);
                         }
 
                         void read( bool& value)
@@ -386,7 +404,7 @@ namespace casual
 
                         void read( std::u8string& value)
                         {
-                           value = transcode::utf8::encode(*m_data_stack.back());
+                           value = transcode::utf8::encode( *m_data_stack.back());
                         }
 
                         void read( binary::span::Fixed< std::byte> value)
@@ -532,6 +550,9 @@ namespace casual
                         void consume( std::ostream& destination) 
                         {
                            write_flat( Implementation::document(), destination);
+                           m_document = {};
+                           m_name_stack.clear();
+                           m_node_stack = { &m_document};
                         }
 
                      private:
@@ -539,7 +560,14 @@ namespace casual
                         template< concepts::arithmetic T>
                         std::string encode( T value) const
                         {
-                           return std::to_string( value);
+                           if constexpr( std::floating_point< T>)
+                           {
+                              // the shortest representation that is exactly the same value when it's read.
+                              std::array< char, 64> buffer;
+                              return { buffer.data(), std::to_chars( buffer.data(), buffer.data() + buffer.size(), value).ptr};
+                           }
+                           else
+                              return std::to_string( value);
                         }
 
                         // A few overloads
-- 
2.43.0


From f7bf64fd776359b9d6bb874c9628092f4c894fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 23/61] fix: archives - values of nodes without content, and
 integral values out of range

---
 middleware/common/include/common/serialize/value.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/serialize/value.h b/middleware/common/include/common/serialize/value.h
index 7500a78..a422c0b 100644
--- a/middleware/common/include/common/serialize/value.h
+++ b/middleware/common/include/common/serialize/value.h
@@ -19,6 +19,7 @@
 
 #include <optional>
 #include <system_error>
+#include <utility>
 #include <filesystem>
 
 namespace casual
@@ -262,11 +263,17 @@ namespace casual
             using conformant_type = decltype( detail::integral::archive::conformant::convert( value));
             static_assert( concepts::serialize::archive::native::read< conformant_type>);
 
-            conformant_type conformant;
+            // the archive could leave the value as is, even if it exists (null/empty)
+            auto conformant = static_cast< conformant_type>( value);
 
             if( ! archive.read( conformant, name))
                return false;
 
+            // if the archive has a wider type than the value, it could be something that doesn't fit.
+            if constexpr( sizeof( T) < sizeof( conformant_type))
+               if( ! std::in_range< T>( conformant))
+                  throw std::system_error{ std::make_error_code( std::errc::result_out_of_range), "integral value out of range"};
+
             value = detail::integral::archive::conformant::convert< T>( conformant);
             return true;
          }
@@ -284,7 +291,8 @@ namespace casual
 
          static bool read( A& archive, T& value, const char* name)
          {
-            std::underlying_type_t< T> underlying; 
+            // the archive could leave the value as is, even if it exists (null/empty)
+            auto underlying = static_cast< std::underlying_type_t< T>>( value);
             if( value::read( archive, underlying, name))
             {
                value = static_cast< T>( underlying);
@@ -581,7 +589,7 @@ namespace casual
             template< typename A, typename V>
             auto read_named( A& archive, V& value, const char* name)
             {
-               std::decay_t< decltype( value.value())> contained;
+               std::decay_t< decltype( value.value())> contained{};
 
                if( value::read( archive, contained, name))
                {
-- 
2.43.0


From cb4372bdb145557219506427084094e2a21a8fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:18 +0000
Subject: [PATCH 24/61] fix: consumed archives - endless or too deeply nested
 sources are errors

---
 middleware/common/include/common/serialize/policy.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/middleware/common/include/common/serialize/policy.h b/middleware/common/include/common/serialize/policy.h
index 74d707e..9af3f90 100644
--- a/middleware/common/include/common/serialize/policy.h
+++ b/middleware/common/include/common/serialize/policy.h
@@ -128,6 +128,13 @@ namespace casual
             template< typename T>
             inline void container_composite_start( T&& name, std::string_view postfix)
             {
+               // the source could be 'endless' (yaml aliases that refers to them self), or nested deeper than the 
+               // (call) stack can handle. No object-model comes close to this.
+               constexpr platform::size::type max_depth = 1000;
+
+               if( range::size( m_stack) >= max_depth)
+                  code::raise::error( code::casual::invalid_document, "nested too deep - max: ", max_depth);
+
                auto view = Representation::view( name);
                if( ! view.empty())
                {
-- 
2.43.0


From bb5e51a418651372cd9f36b3c2e8de9239182771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 25/61] fix: task coordinator - own the unit during dispatch,
 the handler might fail, add or remove units

---
 .../common/include/casual/task/concurrent.h   | 70 ++++++++++++++++---
 1 file changed, 62 insertions(+), 8 deletions(-)

diff --git a/middleware/common/include/casual/task/concurrent.h b/middleware/common/include/casual/task/concurrent.h
index 850a2e6..7073a9a 100644
--- a/middleware/common/include/casual/task/concurrent.h
+++ b/middleware/common/include/casual/task/concurrent.h
@@ -11,6 +11,9 @@
 #include "common/strong/id.h"
 #include "common/message/type.h"
 #include "common/functional.h"
+#include "common/execute.h"
+#include "common/algorithm.h"
+#include "common/algorithm/container.h"
 
 #include <string_view>
 
@@ -189,33 +192,52 @@ namespace casual
          template< typename M>
          void operator() ( M&& message)
          {
-            if( auto found = common::algorithm::find( m_units, message.correlation))
-               if( std::invoke( *found, message) == unit::Dispatch::done)
-                  common::algorithm::container::erase( m_units, std::begin( found));
+            auto found = common::algorithm::find( m_units, message.correlation);
+
+            if( ! found)
+               return;
+
+            // The handler might (indirectly) add, remove or fail units, hence we need to own the unit during the dispatch.
+            Active active{ common::algorithm::container::extract( m_units, std::begin( found)), m_active};
+            m_active = &active;
+
+            // make sure we restore 'previous active' regardless
+            auto restore = common::execute::scope( [ this, &active](){ m_active = active.previous;});
+
+            if( std::invoke( active.unit, message) == unit::Dispatch::done || active.removed)
+               return;
+
+            if( active.failed)
+               invoke_failed( active.unit);
+            else
+               m_units.push_back( std::move( active.unit));
          }
 
          bool contains( const common::strong::correlation::id& correlation) const noexcept
          {
-            return common::algorithm::contains( m_units, correlation);
+            return common::algorithm::contains( m_units, correlation) || active( correlation);
          }
 
          bool contains( const Key& key) const noexcept
          {
-            return common::algorithm::contains( m_units, key);
+            return common::algorithm::contains( m_units, key) || active( key);
          }
 
          //! Find all task-units that correspond to the `key` and invoke them with message::task::Failed, 
          //! then remove the unit. It's optional for the unit to have a handler for message::task::Failed.
          void failed( const Key& key)
          {
+            // units that are in the middle of a dispatch are taken care of when the dispatch is done.
+            for( auto active = m_active; active; active = active->previous)
+               if( active->unit == key)
+                  active->failed = true;
+
             common::algorithm::container::erase_if( m_units, [ &key]( auto& unit)
             {
                if( unit != key)
                   return false;
 
-               message::task::Failed message;
-               message.correlation = unit.correlation();
-               std::invoke( unit, message);
+               invoke_failed( unit);
 
                return true;
             });
@@ -223,6 +245,10 @@ namespace casual
 
          void remove( const common::strong::correlation::id& correlation)
          {
+            for( auto active = m_active; active; active = active->previous)
+               if( active->unit == correlation)
+                  active->removed = true;
+
             common::algorithm::container::erase( m_units, correlation);
          }
 
@@ -234,7 +260,35 @@ namespace casual
          )
 
       private:
+
+         //! a unit that is in the middle of a dispatch
+         struct Active
+         {
+            unit_type unit;
+            Active* previous = nullptr;
+            bool failed = false;
+            bool removed = false;
+         };
+
+         static void invoke_failed( unit_type& unit)
+         {
+            message::task::Failed message;
+            message.correlation = unit.correlation();
+            std::invoke( unit, message);
+         }
+
+         template< typename T>
+         bool active( const T& value) const noexcept
+         {
+            for( auto active = m_active; active; active = active->previous)
+               if( active->unit == value && ! active->failed && ! active->removed)
+                  return true;
+
+            return false;
+         }
+
          std::vector< unit_type> m_units;
+         Active* m_active = nullptr;
       };
       
       
-- 
2.43.0


From 2808940792c6118f9ce63d7c85055efafb1de185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 26/61] fix: gateway outbound - unadvertise a concurrent
 service as such

---
 middleware/gateway/source/group/outbound/handle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index a85b28a..1b5c285 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -141,7 +141,7 @@ namespace casual
                   {
                      if( auto handle = state.connections.process_handle( descriptor))
                      {
-                        common::message::service::Advertise unadvertise{ handle};
+                        common::message::service::concurrent::Advertise unadvertise{ handle};
                         unadvertise.alias = instance::alias();
                         unadvertise.services.remove = std::move( services);
                         state.multiplex.send( ipc::manager::service(), unadvertise);
-- 
2.43.0


From 400eb04c742cd73fee0197d0aa6a32f9f5d123f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 27/61] fix: gateway outbound - be prepared that a connection
 is lost during send, and do not wait for replies that never comes

---
 .../gateway/source/group/outbound/handle.cpp  | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 1b5c285..6d5e21e 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -262,21 +262,21 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
-                           if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
-                           {
-                              tcp::send( state, connection->descriptor(), message);
+                           // the connection might get lost during the send (and `connection` with it). We need to
+                           // have the task and the association in place before we send, so caller (and TM) gets to know.
+                           const auto socket = connection->descriptor();
+                           const auto protocol = connection->protocol();
 
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
-                           }
-                           else
-                           {
-                              // we need to do this first, since we're doing a destructive transform on the message (we cant use after moved)
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
+                           // there will be no reply, hence nothing to wait for
+                           if( ! flag::contains( message.flags, common::message::service::call::request::Flag::no_reply))
+                              state.tasks.add( detail::create::task( state, message, socket));
 
-                              tcp::send( state, connection->descriptor(), message::protocol::transform::to< common::message::service::call::v1_2::callee::Request>( std::move( message)));
-                           }
+                           transaction::associate_and_involve( state, message, socket);
+
+                           if( message::protocol::compatible< common::message::service::call::callee::Request>( protocol))
+                              tcp::send( state, socket, message);
+                           else
+                              tcp::send( state, socket, message::protocol::transform::to< common::message::service::call::v1_2::callee::Request>( std::move( message)));
 
                         };
                      }
@@ -502,10 +502,11 @@ namespace casual
 
                            auto tcp = state.connections.partner( descriptor);
 
-                           tcp::send( state, tcp, message);
+                           // the connection might get lost during the send, we need to be prepared.
                            state.tasks.add( detail::create::task( state, message, tcp));
-
                            transaction::associate_and_involve( state, message, tcp);
+
+                           tcp::send( state, tcp, message);
                         };
                      }  
                   } // basic
-- 
2.43.0


From c150c0977d4424e25ad8184deb6c5b877e520263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 28/61] fix: gateway outbound - a queue request on a lost
 connection has not succeeded

---
 middleware/gateway/source/group/outbound/handle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 6d5e21e..92df004 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -483,6 +483,7 @@ namespace casual
 
                            reply_type reply;
                            reply.correlation = message.correlation;
+                           reply.code = decltype( reply.code)::system;
 
                            state.multiplex.send( ipc, reply);
                         }};
-- 
2.43.0


From bf8c1ca2d6f9d8c596dfcbd4270acd3c18dfc0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:10 +0000
Subject: [PATCH 29/61] fix: gateway outbound - tell the caller when a
 conversation is lost, and end the ones that fail to connect

---
 .../gateway/source/group/outbound/handle.cpp  | 43 ++++++++++++++++---
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 92df004..03bd597 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -299,6 +299,7 @@ namespace casual
                               strong::ipc::id ipc;
                               platform::time::point::type start;
                               common::transaction::ID trid;
+                              bool connected = false;
 
                            };
 
@@ -317,6 +318,11 @@ namespace casual
 
                                  state.multiplex.send( shared->ipc, message);
 
+                                 // if the connect failed there is no conversation, and we're done.
+                                 if( ! algorithm::compare::any( message.code.result, code::xatmi::ok, code::xatmi::absent))
+                                    return task::concurrent::unit::Dispatch::done;
+
+                                 shared->connected = true;
                                  return task::concurrent::unit::Dispatch::pending;
                               },
                               [ &state, shared]( common::message::conversation::callee::Send& message, strong::socket::id descriptor)
@@ -343,6 +349,30 @@ namespace casual
                                  service::metric( state, message, std::move( *shared), { .result = code::xatmi::ok});
 
                                  return task::concurrent::unit::Dispatch::done;
+                              },
+                              [ &state, shared]( casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
+                              {
+                                 Trace trace{ "gateway::group::outbound::handle::local::internal::conversation::task task::Failed"};
+
+                                 if( shared->connected)
+                                 {
+                                    common::message::conversation::callee::Send send;
+                                    send.correlation = message.correlation;
+                                    send.duplex = decltype( send.duplex)::terminated;
+                                    send.code.result = code::xatmi::service_error;
+
+                                    state.multiplex.send( shared->ipc, send);
+                                 }
+                                 else
+                                 {
+                                    common::message::conversation::connect::Reply reply;
+                                    reply.correlation = message.correlation;
+                                    reply.code.result = code::xatmi::service_error;
+
+                                    state.multiplex.send( shared->ipc, reply);
+                                 }
+
+                                 service::metric( state, message, std::move( *shared), { .result = code::xatmi::service_error});
                               }
                               
                            };
@@ -360,13 +390,16 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
-                           state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                           transaction::associate_and_involve( state, message, connection->descriptor());
+                           const auto socket = connection->descriptor();
+                           const auto protocol = connection->protocol();
+
+                           state.tasks.add( detail::create::task( state, message, socket));
+                           transaction::associate_and_involve( state, message, socket);
 
-                           if( message::protocol::compatible< common::message::conversation::connect::callee::Request>( connection->protocol()))
-                              tcp::send( state, connection->descriptor(), message);
+                           if( message::protocol::compatible< common::message::conversation::connect::callee::Request>( protocol))
+                              tcp::send( state, socket, message);
                            else
-                              tcp::send( state, connection->descriptor(), message::protocol::transform::to< common::message::conversation::connect::v1_2::callee::Request>( std::move( message)));
+                              tcp::send( state, socket, message::protocol::transform::to< common::message::conversation::connect::v1_2::callee::Request>( std::move( message)));
 
                         };
                      }
-- 
2.43.0


From 5ec879a6c84326d0d2ba56265bd53e5e64182db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:33 +0000
Subject: [PATCH 30/61] fix: gateway outbound - reply to requests that are not
 consumed when the connection is lost

---
 .../gateway/source/group/outbound/handle.cpp  | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 03bd597..d320b2b 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -558,6 +558,51 @@ namespace casual
                
             } // internal
 
+            namespace internal
+            {
+               //! replies with error to all requests that are in the internal ipc-channel, but not yet consumed.
+               //! To be used when the connection is lost - there will be no one to consume them.
+               void discard( State& state, strong::socket::id descriptor)
+               {
+                  Trace trace{ "gateway::group::outbound::handle::local::internal::discard"};
+
+                  auto inbound = state.connections.find_internal( descriptor);
+
+                  if( ! inbound)
+                     return;
+
+                  auto queue_reply = [ &state]( auto& message)
+                  {
+                     auto reply = common::message::reverse::type( message);
+                     reply.code = decltype( reply.code)::system;
+                     state.multiplex.send( message.process.ipc, reply);
+                  };
+
+                  auto handler = common::message::dispatch::handler( *inbound,
+                     [ &state]( common::message::service::call::callee::Request& message)
+                     {
+                        if( ! flag::contains( message.flags, common::message::service::call::request::Flag::no_reply))
+                           service::call::detail::send::error::reply( state, message, code::xatmi::service_error);
+                     },
+                     [ &state]( common::message::conversation::connect::callee::Request& message)
+                     {
+                        auto reply = common::message::reverse::type( message);
+                        reply.code.result = code::xatmi::service_error;
+                        state.multiplex.send( message.process.ipc, reply);
+                     },
+                     [ queue_reply]( casual::queue::ipc::message::group::enqueue::Request& message){ queue_reply( message);},
+                     [ queue_reply]( casual::queue::ipc::message::group::dequeue::Request& message){ queue_reply( message);},
+                     [ &state]( casual::domain::message::discovery::Request& message)
+                     {
+                        state.multiplex.send( message.process.ipc, common::message::reverse::type( message));
+                     }
+                  );
+
+                  while( auto complete = communication::device::non::blocking::next( *inbound))
+                     handler( std::move( complete));
+               }
+            } // internal
+
             namespace external
             {
                template< typename Message>
@@ -988,6 +1033,9 @@ namespace casual
 
             state.tasks.failed( descriptor);
 
+            // requests might be sent to us that we haven't consumed.
+            local::internal::discard( state, descriptor);
+
             // extract all state associated with the descriptor
             auto extracted = state.failed( descriptor);
             log::line( verbose::log, "extracted: ", extracted);
-- 
2.43.0


From fd2ae0c81afb1b671f1b11717c614bb1e4d9e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 31/61] fix: inbound: queue request without queue manager, or
 queue, is answered with an error

Without queue manager the emulated lookup reply was pushed to the main inbound that has no handler
for it, hence the remote never got a reply. The emulated replies had code ok.
---
 .../gateway/source/group/inbound/task/create.cpp    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 2934185..d45e571 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -76,6 +76,13 @@ namespace casual
                   state.multiplex.send( ipc::manager::service(), request);
                }
 
+               //! emulate an absent lookup reply, to the "partner ipc"
+               void absent( State& state, strong::socket::id descriptor, const casual::queue::ipc::message::lookup::Request& request)
+               {
+                  if( auto found = state.connections.find_internal( descriptor))
+                     state.multiplex.send( found->connector().handle().ipc(), common::message::reverse::type( request));
+               }
+
                template< typename M>
                void queue( State& state, strong::socket::id descriptor, const M& message)
                {
@@ -93,7 +100,7 @@ namespace casual
 
                   //! if queue-manager is offline for some reason, we emulate "no-ent";
                   if( ! state.multiplex.send( ipc::manager::optional::queue(), request))
-                     ipc::inbound().push( common::message::reverse::type( request));
+                     lookup::absent( state, descriptor, request);
                }
 
             } // lookup
@@ -128,7 +135,9 @@ namespace casual
             template< typename M>
             void fake_queue_error_reply( State& state, strong::socket::id descriptor, M&& request)
             {
-               local::send_to_partner_ipc( state, descriptor, common::message::reverse::type( request));
+               auto reply = common::message::reverse::type( request);
+               reply.code = decltype( reply.code)::no_queue;
+               local::send_to_partner_ipc( state, descriptor, std::move( reply));
             }
 
             template< typename M>
-- 
2.43.0


From 141bbe0fa2a118b7de42485be68676cc9efb217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 32/61] fix: inbound: reply to resource requests with the trid
 of the remote

---
 middleware/gateway/source/group/inbound/task/create.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index d45e571..7ddf75d 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -511,6 +511,9 @@ namespace casual
 
                using reply_type = common::message::reverse::type_t< M>;
 
+               // we need to map back to the external trid when we get the reply
+               auto origin_trid = message.trid;
+
                // map to the internal trid, we expect to find this in cache
                if( auto found = state.transaction_cache.find( common::transaction::id::range::global( message.trid)))
                {
@@ -525,7 +528,7 @@ namespace casual
                }
 
                return task_unit{ descriptor, message.correlation,
-                  [ &state, origin_trid = message.trid]( reply_type& reply, strong::socket::id descriptor)
+                  [ &state, origin_trid = std::move( origin_trid)]( reply_type& reply, strong::socket::id descriptor)
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_transaction task"};
 
-- 
2.43.0


From b90780f3d0bf37032e8c5c7f73fe47b50b122ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 33/61] fix: inbound: a queue request is outstanding until it's
 replied

The task was done when the request was sent to the queue-group, hence a disconnect could drop the connection before the reply.
---
 middleware/gateway/source/group/inbound/handle.cpp | 14 ++++++++++++++
 .../gateway/source/group/inbound/task/create.cpp   |  6 +++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 418bffc..9909a76 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -23,6 +23,8 @@
 #include "common/event/listen.h"
 #include "common/event/send.h"
 
+#include "common/execute.h"
+
 #include "casual/assert.h"
 
 namespace casual
@@ -124,6 +126,12 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
+                           // the request is done with this reply
+                           auto remove_task = execute::scope( [ &state, correlation = message.correlation]()
+                           {
+                              state.tasks.remove( correlation);
+                           });
+
                            if( message::protocol::compatible< casual::queue::ipc::message::group::dequeue::Reply>( connection->protocol()))
                               inbound::tcp::send( state, connection->descriptor(), message);
                            else
@@ -144,6 +152,12 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
+                           // the request is done with this reply
+                           auto remove_task = execute::scope( [ &state, correlation = message.correlation]()
+                           {
+                              state.tasks.remove( correlation);
+                           });
+
                            if( message::protocol::compatible< casual::queue::ipc::message::group::enqueue::Reply>( connection->protocol()))
                               inbound::tcp::send( state, connection->descriptor(), message);
                            else
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 7ddf75d..43f1ed2 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -443,7 +443,7 @@ namespace casual
             {
                Trace trace{ "gateway::group::inbound::task::create::local::handle_queue"};
 
-               // The enqueue/dequeue Reply we just forward to the corresponding tcp socket
+               // The enqueue/dequeue Reply we just forward to the corresponding tcp socket, which also removes the task
 
                local::lookup::queue( state, descriptor, message);
 
@@ -484,7 +484,7 @@ namespace casual
                         return casual::task::concurrent::unit::Dispatch::pending;
 
                      local::send::queue_request( state, descriptor, *shared->lookup, shared->message);
-                     return casual::task::concurrent::unit::Dispatch::done;
+                     return casual::task::concurrent::unit::Dispatch::pending;
                   },
                   [ &state, shared]( common::message::transaction::inbound::branch::Reply& reply, strong::socket::id descriptor) mutable
                   {
@@ -499,7 +499,7 @@ namespace casual
                         return casual::task::concurrent::unit::Dispatch::pending;
                      
                      local::send::queue_request( state, descriptor, *shared->lookup, shared->message);
-                     return casual::task::concurrent::unit::Dispatch::done;
+                     return casual::task::concurrent::unit::Dispatch::pending;
                   }
                };
             }
-- 
2.43.0


From e2d0f64ebe83733010a1d08bad15f89b190e8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:53 +0000
Subject: [PATCH 34/61] fix: inbound: keep track of the transaction even if the
 service is absent

If the lookup reply (absent or timeout) came before the branched trid the task was done, and
the branched trid was dropped, hence a subsequent prepare from the remote got a protocol error.
---
 .../source/group/inbound/task/create.cpp      | 66 +++++--------------
 1 file changed, 17 insertions(+), 49 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 43f1ed2..44d199c 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -124,14 +124,6 @@ namespace casual
                local::send_to_partner_ipc( state, descriptor, std::move( reply));
             }
 
-            template< typename M>
-            void fake_conversation_connect_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
-            {
-               auto reply = common::message::reverse::type( request);
-               reply.code.result = code;
-               local::send_to_partner_ipc( state, descriptor, std::move( reply));
-            }  
-
             template< typename M>
             void fake_queue_error_reply( State& state, strong::socket::id descriptor, M&& request)
             {
@@ -184,6 +176,11 @@ namespace casual
                         local::fake_service_error_reply( state, descriptor, message, code::xatmi::no_entry);
                         break;
                      }
+                     case Enum::timeout:
+                     {
+                        local::fake_service_error_reply( state, descriptor, message, code::xatmi::timeout);
+                        break;
+                     }
                      default: 
                      {
                         log::error( code::casual::internal_unexpected_value, "unexpected state on lookup reply: ", lookup, " - action: reply with: ", code::xatmi::service_error);
@@ -247,27 +244,12 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call lookup::Reply"};
 
-                     switch( reply.state)
-                     {
-                        using Enum = decltype( reply.state);
-                        case Enum::idle:
-                        {
-                           shared->lookup = std::move( reply);
-
-                           // If the call wasn't in transaction, or we've branched the trid already.
-                           // If the call failed, we've "sent" the reply, 
-                           if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              local::send::service_request( state, descriptor, *shared->lookup, shared->message);
-
-                           break;
-                        }
-                        case Enum::absent:
-                           local::fake_service_error_reply( state, descriptor, shared->message, code::xatmi::no_entry);
-                           break;
-                        case Enum::timeout:
-                           local::fake_service_error_reply( state, descriptor, shared->message, code::xatmi::timeout);
-                           break;
-                     }
+                     shared->lookup = std::move( reply);
+
+                     // If we wait for the branched trid we have to get it first, regardless of the outcome of the lookup. Otherwise
+                     // we would not know about the transaction when the remote prepares it.
+                     if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                        local::send::service_request( state, descriptor, *shared->lookup, shared->message);
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
@@ -357,26 +339,12 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation lookup::Reply"};
 
-                     switch( reply.state)
-                     {
-                        using Enum = decltype( reply.state);
-                        case Enum::idle:
-                        {
-                           shared->lookup = std::move( reply);
-
-                           // if the call wasn't in transaction, or we've branched the trid already
-                           if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              local::send::service_request( state, descriptor, *shared->lookup, shared->message);
-
-                           break;
-                        }
-                        case Enum::absent:
-                           local::fake_conversation_connect_error_reply( state, descriptor, shared->message, code::xatmi::no_entry);
-                           break;
-                        case Enum::timeout:
-                           local::fake_conversation_connect_error_reply( state, descriptor, shared->message, code::xatmi::timeout);
-                           break;
-                     }
+                     shared->lookup = std::move( reply);
+
+                     // If we wait for the branched trid we have to get it first, regardless of the outcome of the lookup. Otherwise
+                     // we would not know about the transaction when the remote prepares it.
+                     if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                        local::send::service_request( state, descriptor, *shared->lookup, shared->message);
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
-- 
2.43.0


From 8443f522794cd05073f1f667724e09bf72e27ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 35/61] fix: inbound: a call in transaction from the own domain
 is never lost

If the domain is connected to it self the branched trid could be the same as the one in the request, hence, if the branch reply came
before the lookup reply, the request was never sent.
---
 .../source/group/inbound/task/create.cpp      | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 44d199c..d4a1ed9 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -216,9 +216,9 @@ namespace casual
 
                struct Shared
                {
-                  common::transaction::ID origin_trid;
                   common::message::service::call::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
+                  bool wait_for_branch = false;
                };
 
                local::lookup::service( state, descriptor, message);
@@ -227,12 +227,13 @@ namespace casual
 
                if( message.trid)
                {
-                  shared->origin_trid = message.trid;
-
                   if( auto found = state.transaction_cache.associate( message.trid, descriptor))
                      message.trid = *found;
                   else
+                  {
+                     shared->wait_for_branch = true;
                      local::lookup::branch( state, descriptor, message);
+                  }
                }
                
                shared->message = std::move( message);
@@ -248,7 +249,7 @@ namespace casual
 
                      // If we wait for the branched trid we have to get it first, regardless of the outcome of the lookup. Otherwise
                      // we would not know about the transaction when the remote prepares it.
-                     if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                     if( ! shared->wait_for_branch)
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
@@ -261,6 +262,7 @@ namespace casual
                      state.transaction_cache.add( reply.trid, descriptor);
 
                      shared->message.trid = std::move( reply.trid);
+                     shared->wait_for_branch = false;
 
                      if( shared->lookup)
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
@@ -311,9 +313,9 @@ namespace casual
 
                struct Shared
                {
-                  common::transaction::ID origin_trid;
                   common::message::conversation::connect::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
+                  bool wait_for_branch = false;
                };
 
                local::lookup::service( state, descriptor, message);
@@ -322,12 +324,13 @@ namespace casual
 
                if( message.trid)
                {
-                  shared->origin_trid = message.trid;
-
                   if( auto found = state.transaction_cache.associate( message.trid, descriptor))
                      message.trid = *found;
                   else
+                  {
+                     shared->wait_for_branch = true;
                      local::lookup::branch( state, descriptor, message);
+                  }
                }
                
                shared->message = std::move( message);
@@ -343,7 +346,7 @@ namespace casual
 
                      // If we wait for the branched trid we have to get it first, regardless of the outcome of the lookup. Otherwise
                      // we would not know about the transaction when the remote prepares it.
-                     if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                     if( ! shared->wait_for_branch)
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
@@ -356,6 +359,7 @@ namespace casual
                      state.transaction_cache.add( reply.trid, descriptor);
 
                      shared->message.trid = std::move( reply.trid);
+                     shared->wait_for_branch = false;
 
                      if( shared->lookup)
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
-- 
2.43.0


From bedbf6d6247c6e468f3fca5c865ddb794146ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 36/61] fix: inbound: discard the reserved instance if the
 connection is lost while the trid is branched

The lookup was only discarded if there was no reply yet, hence if the connection was lost between the lookup reply and
the branch reply the instance was reserved forever.
---
 .../source/group/inbound/task/create.cpp      | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index d4a1ed9..4f1267f 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -219,6 +219,7 @@ namespace casual
                   common::message::service::call::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
                   bool wait_for_branch = false;
+                  bool sent = false;
                };
 
                local::lookup::service( state, descriptor, message);
@@ -250,7 +251,10 @@ namespace casual
                      // If we wait for the branched trid we have to get it first, regardless of the outcome of the lookup. Otherwise
                      // we would not know about the transaction when the remote prepares it.
                      if( ! shared->wait_for_branch)
+                     {
+                        shared->sent = true;
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                     }
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
@@ -265,7 +269,10 @@ namespace casual
                      shared->wait_for_branch = false;
 
                      if( shared->lookup)
+                     {
+                        shared->sent = true;
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                     }
 
                      return casual::task::concurrent::unit::Dispatch::pending;
                   },
@@ -286,9 +293,9 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     if( ! shared->sent)
                      {
-                        // we have a pending lookup, discard.
+                        // we have a pending lookup, or a reservation that will not be used, discard.
                         common::message::service::lookup::discard::Request request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
@@ -316,6 +323,7 @@ namespace casual
                   common::message::conversation::connect::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
                   bool wait_for_branch = false;
+                  bool sent = false;
                };
 
                local::lookup::service( state, descriptor, message);
@@ -347,7 +355,10 @@ namespace casual
                      // If we wait for the branched trid we have to get it first, regardless of the outcome of the lookup. Otherwise
                      // we would not know about the transaction when the remote prepares it.
                      if( ! shared->wait_for_branch)
+                     {
+                        shared->sent = true;
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                     }
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
@@ -362,7 +373,10 @@ namespace casual
                      shared->wait_for_branch = false;
 
                      if( shared->lookup)
+                     {
+                        shared->sent = true;
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                     }
 
                   
                      return casual::task::concurrent::unit::Dispatch::pending;
@@ -393,9 +407,9 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     if( ! shared->sent)
                      {
-                        // we have a pending lookup, discard.
+                        // we have a pending lookup, or a reservation that will not be used, discard.
                         common::message::service::lookup::discard::Request request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
-- 
2.43.0


From 7592158c1648e7b67c56505d8c23fc88648fd539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 37/61] fix: inbound: calls without reply are done when the
 request is sent

The task was never removed, hence the connection could not be disconnected. If the lookup failed a reply was sent regardless.
---
 .../source/group/inbound/task/create.cpp      | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 4f1267f..75c5113 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -116,9 +116,22 @@ namespace casual
             }
          
 
+            //! @returns true if the `message` is a request without reply.
+            template< typename M>
+            bool no_reply( const M& message)
+            {
+               if constexpr( std::same_as< M, common::message::service::call::callee::Request>)
+                  return flag::contains( message.flags, common::message::service::call::request::Flag::no_reply);
+               else
+                  return false;
+            }
+
             template< typename M>
             void fake_service_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
             {
+               if( local::no_reply( request))
+                  return;
+
                auto reply = common::message::reverse::type( request);
                reply.code.result = code;
                local::send_to_partner_ipc( state, descriptor, std::move( reply));
@@ -254,6 +267,10 @@ namespace casual
                      {
                         shared->sent = true;
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+
+                        // there will be no reply that ends the task
+                        if( local::no_reply( shared->message))
+                           return casual::task::concurrent::unit::Dispatch::done;
                      }
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
@@ -272,6 +289,10 @@ namespace casual
                      {
                         shared->sent = true;
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+
+                        // there will be no reply that ends the task
+                        if( local::no_reply( shared->message))
+                           return casual::task::concurrent::unit::Dispatch::done;
                      }
 
                      return casual::task::concurrent::unit::Dispatch::pending;
-- 
2.43.0


From 7bfd992ff8f2f40bc3895442b1fac4cb9f8e1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 38/61] fix: inbound: a conversation that fails to connect is
 done

---
 .../gateway/source/group/inbound/handle.cpp   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 9909a76..ad4de86 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -39,19 +39,6 @@ namespace casual
          {
             namespace internal
             {
-               template< typename Message>
-               auto basic_forward( State& state)
-               {
-                  return [ &state]( Message& message, strong::ipc::descriptor::id descriptor)
-                  {
-                     Trace trace{ "gateway::group::inbound::handle::local::basic_forward"};
-                     common::log::line( verbose::log, "forward message: ", message);
-                     common::log::line( verbose::log, "descriptor: ", descriptor);
-
-                     tcp::send( state, state.connections.partner( descriptor), message);
-                  };
-               }
-
                template< typename Message>
                auto basic_task( State& state)
                {
@@ -86,7 +73,20 @@ namespace casual
                {
                   namespace connect
                   {
-                     auto reply = internal::basic_forward< common::message::conversation::connect::Reply>;
+                     auto reply( State& state)
+                     {
+                        return [ &state]( common::message::conversation::connect::Reply& message, strong::ipc::descriptor::id descriptor)
+                        {
+                           Trace trace{ "gateway::group::inbound::handle::conversation::connect::reply"};
+                           common::log::line( verbose::log, "message: ", message);
+
+                           tcp::send( state, state.connections.partner( descriptor), message);
+
+                           // if the connect failed there is no conversation, and the task is done
+                           if( ! algorithm::compare::any( message.code.result, code::xatmi::ok, code::xatmi::absent))
+                              state.tasks.remove( message.correlation);
+                        };
+                     }
                      
                   } // connect
 
-- 
2.43.0


From c5ff537ae780149b863ecf8389e47f62fcb5bf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 39/61] fix: inbound: tell the callee when the connection is
 lost in a conversation

---
 middleware/gateway/source/group/inbound/task/create.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 75c5113..8de726f 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -439,6 +439,15 @@ namespace casual
 
                         state.multiplex.send( ipc::manager::service(), request);
                      }
+                     else if( shared->lookup->state == decltype( shared->lookup->state)::idle)
+                     {
+                        // the callee will never hear from the caller again, let it know.
+                        common::message::conversation::Disconnect disconnect;
+                        disconnect.correlation = message.correlation;
+                        disconnect.execution = shared->message.execution;
+
+                        state.multiplex.send( shared->lookup->process.ipc, disconnect);
+                     }
 
                      return casual::task::concurrent::unit::Dispatch::done;
                   }
-- 
2.43.0


From b7f0db1da1843ae6a3324ac7253979a4d97abab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 40/61] fix: gateway: protocol 1.0 to 1.2: a conversation keeps
 its direction when it is connected

The transformation between the current connect request and the one of
protocol 1.2 (and older) ignored duplex, hence the callee always got
the control of the conversation, even if the caller kept it.
---
 middleware/gateway/include/gateway/message/protocol/transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/middleware/gateway/include/gateway/message/protocol/transform.h b/middleware/gateway/include/gateway/message/protocol/transform.h
index 7f95726..b40e20a 100644
--- a/middleware/gateway/include/gateway/message/protocol/transform.h
+++ b/middleware/gateway/include/gateway/message/protocol/transform.h
@@ -87,6 +87,7 @@ namespace casual
          result.service.name = std::move( message.service.name);
          result.service.timeout.duration = message.deadline.remaining.value_or( platform::time::unit{});
          result.trid = std::move( message.trid);
+         result.duplex = message.duplex;
          return result;
       }
 
@@ -104,6 +105,7 @@ namespace casual
             result.deadline.remaining = message.service.timeout.duration;
          
          result.trid = std::move( message.trid);
+         result.duplex = message.duplex;
          return result;
       }
 
-- 
2.43.0


From 81535c5642f41e73c655c5b8b05bdc14db20562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:18 +0000
Subject: [PATCH 41/61] fix: call: a late reply to a call that is done does not
 disturb 'get any'

---
 .../include/common/service/call/state.h       |  3 ++-
 .../common/source/service/call/context.cpp    | 24 +++++++++++++++----
 .../common/source/service/call/state.cpp      | 11 ++++-----
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/middleware/common/include/common/service/call/state.h b/middleware/common/include/common/service/call/state.h
index 9a8b130..fa6f90a 100644
--- a/middleware/common/include/common/service/call/state.h
+++ b/middleware/common/include/common/service/call/state.h
@@ -53,7 +53,8 @@ namespace casual
             bool active( descriptor_type descriptor) const;
 
             const pending::Descriptor& get( descriptor_type descriptor) const;
-            const pending::Descriptor& get( const correlation_type& correlation) const;
+            //! @returns the active descriptor that is associated to the correlation, or nullptr if not found
+            const pending::Descriptor* find( const correlation_type& correlation) const;
             pending::Descriptor& get( descriptor_type descriptor);
 
             //! Tries to discard descriptor, throws if fail.
diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index ce6e43b..5646722 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -229,13 +229,27 @@ namespace casual
 
             if( flag::contains( flags, reply::Flag::any))
             {
-               // We fetch any
-               if( ! local::receive( reply, flags))
+               // We fetch any of our pending. Other replies are of no interest here, they could be late and the
+               // call is already done (timeout), or belong to a conversation.
+               auto is_pending = [ &]( auto& complete)
+               {
+                  return complete.type() == message::service::call::Reply::type() && m_state.pending.find( complete.correlation());
+               };
+
+               auto& device = communication::ipc::inbound::device();
+
+               auto complete = flag::contains( flags, reply::Flag::no_block) ?
+                  device.select( is_pending, communication::device::policy::non::blocking( device))
+                  : device.select( is_pending, communication::device::policy::blocking( device));
+
+               if( ! complete)
                   code::raise::error( code::xatmi::no_message);
 
-               return std::make_pair(
-                  std::move( reply),
-                  m_state.pending.get( reply.correlation).descriptor);
+               serialize::native::complete( complete, reply);
+
+               auto descriptor = m_state.pending.find( reply.correlation)->descriptor;
+
+               return std::make_pair( std::move( reply), descriptor);
             }
             else
             {
diff --git a/middleware/common/source/service/call/state.cpp b/middleware/common/source/service/call/state.cpp
index 37696b8..6598e39 100644
--- a/middleware/common/source/service/call/state.cpp
+++ b/middleware/common/source/service/call/state.cpp
@@ -90,13 +90,12 @@ namespace casual
             return *found;
          }
 
-         const pending::Descriptor& Pending::get( const correlation_type& correlation) const
+         const pending::Descriptor* Pending::find( const correlation_type& correlation) const
          {
-            auto found = algorithm::find_if( m_descriptors, [&]( const auto& d){ return d.correlation == correlation;});
-            if( ! ( found && found->active))
-               code::raise::error( code::xatmi::descriptor, "failed to locate pending from correlation: ", correlation);
-               
-            return *found;
+            if( auto found = algorithm::find_if( m_descriptors, [&]( const auto& d){ return d.active && d.correlation == correlation;}))
+               return found.data();
+
+            return nullptr;
          }
 
          void Pending::discard( descriptor_type descriptor)
-- 
2.43.0


From 8f7b62005a4ad6d7a2ac6ee0f2a3ccdf58e2bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:49 +0000
Subject: [PATCH 42/61] fix: call: a call that fails to be sent is not pending
 in the transaction

---
 middleware/common/source/service/call/context.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index 5646722..1f73943 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -156,8 +156,18 @@ namespace casual
          // The service exists. Take care of reserving descriptor and determine timeout
          auto prepared = local::prepare::message( m_state, std::move( buffer), std::move( header), flags, target);
 
-         // If some thing goes wrong we unreserve the descriptor
-         auto unreserve = common::execute::scope( [&](){ m_state.pending.unreserve( prepared.descriptor);});
+         // If some thing goes wrong we unreserve the descriptor, and there will be no reply that the transaction has to wait for
+         auto unreserve = common::execute::scope( [&]()
+         { 
+            if( flag::contains( flags, async::Flag::no_reply))
+               return;
+
+            m_state.pending.unreserve( prepared.descriptor);
+            common::transaction::context().current().replied( prepared.message.correlation);
+            
+            // service-manager might reply with error
+            communication::ipc::inbound::device().discard( prepared.message.correlation);
+         });
 
 
          if( target.state != decltype( target.state)::idle)
-- 
2.43.0


From d0aeab5af2a43f655b098a593c2681358e8e26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 43/61] fix: transaction: the state of a transaction from a
 reply is not mixed up, rollback is rollback and timeout is timeout

---
 middleware/common/source/transaction/context.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..ca0d8fa 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -508,9 +508,22 @@ namespace casual
          {
             Trace trace{ "transaction::Context::update"};
 
+            constexpr static auto transform_state = []( message::service::transaction::State state)
+            {
+               switch( state)
+               {
+                  using Enum = message::service::transaction::State;
+                  case Enum::ok: return Transaction::State::active;
+                  case Enum::timeout: return Transaction::State::timeout;
+                  case Enum::rollback: return Transaction::State::rollback;
+                  case Enum::error: return Transaction::State::rollback;
+               }
+               return Transaction::State::rollback;
+            };
+
             if( auto found = algorithm::find( m_transactions, reply.correlation))
             {
-               auto state = Transaction::State( reply.transaction_state);
+               auto state = transform_state( reply.transaction_state);
 
                if( found->state < state)
                   found->state = state;
-- 
2.43.0


From 7fe2969b09086ceb9ddadf6d6cc103976dddb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 44/61] fix: conversation: a conversation in a transaction is
 not pending when it is done, and the transaction is rollback only if it is
 not successful

---
 .../include/common/transaction/context.h      |  5 ++-
 .../source/service/conversation/context.cpp   | 39 ++++++++++++++++---
 .../common/source/transaction/context.cpp     | 13 +++++--
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 71243e2..af3ede2 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -100,7 +100,10 @@ namespace casual
          //! @{
          transaction::ID caller;
 
-         void update( message::service::call::Reply& state);
+         void update( const message::service::call::Reply& reply);
+
+         //! updates the transaction (if any) that is associated to the correlation, which is done.
+         void update( const strong::correlation::id& correlation, message::service::transaction::State transaction_state);
 
          //! commits or rollback transaction created from this server
          message::service::transaction::State finalize( bool commit);
diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index e907fd7..2be2afa 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -239,6 +239,14 @@ namespace casual
 
                   } // check
 
+                  //! the conversation is done, regardless of how.
+                  void done( State& state, strong::conversation::descriptor::id descriptor, message::service::transaction::State transaction_state)
+                  {
+                     const auto correlation = state.descriptors.at( descriptor).correlation;
+                     state.descriptors.unreserve( descriptor);
+                     common::transaction::context().update( correlation, transaction_state);
+                  }
+
                } // <unnamed>
             } // local
 
@@ -293,8 +301,11 @@ namespace casual
 
                log::line( log::debug, "descriptor: ", descriptor, ", value: ", value);
 
-               // If some thing goes wrong we unreserve the descriptor
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               // If some thing goes wrong we unreserve the descriptor, and the transaction (if any) has nothing to wait for
+               auto unreserve = common::execute::scope( [&]()
+               { 
+                  local::done( m_state, descriptor, message::service::transaction::State::ok);
+               });
 
                auto target = service::lookup::reply( std::move( lookup));
 
@@ -371,8 +382,12 @@ namespace casual
 
                value.duplex = local::duplex::convert( flags);
                // if an event occurs (TPEV_DISCONIMM, TPEV_SVCFAI or TPEV_SVCERR)
-               // the conversation is terminated. The descriptor shall be unreserved.
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               // the conversation is terminated. The descriptor shall be unreserved, and 
+               // the transaction (if any) is rollback only.
+               auto unreserve = common::execute::scope( [&]()
+               { 
+                  local::done( m_state, descriptor, message::service::transaction::State::rollback);
+               });
 
                local::check::disconnect( value);
 
@@ -436,7 +451,14 @@ namespace casual
 
                local::validate::receive( value);
 
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( descriptor);});
+               // if the conversation is terminated by anything else than a successful 'return' the 
+               // transaction (if any) is rollback only.
+               auto transaction_state = message::service::transaction::State::rollback;
+
+               auto unreserve = common::execute::scope( [&]()
+               { 
+                  local::done( m_state, descriptor, transaction_state);
+               });
 
                local::check::disconnect( value);
 
@@ -591,6 +613,7 @@ namespace casual
                      case Result::ok:
                         result.event = decltype( result.event)::service_success;
                         result.user = message.code.user;
+                        transaction_state = message.transaction_state;
                      break;
                      case Result::service_fail:
                         result.event = decltype( result.event)::service_fail;
@@ -631,7 +654,11 @@ namespace casual
 
                local::validate::disconnect( value);
 
-               auto unreserve = common::execute::scope( [&](){ m_state.descriptors.unreserve( handle);});
+               // the transaction (if any) is rollback only.
+               auto unreserve = common::execute::scope( [&]()
+               { 
+                  local::done( m_state, handle, message::service::transaction::State::rollback);
+               });
 
                {
                   auto message = local::prepare::message< message::conversation::Disconnect>( value);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ca0d8fa..2b664db 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -504,7 +504,12 @@ namespace casual
          }
 
 
-         void Context::update( message::service::call::Reply& reply)
+         void Context::update( const message::service::call::Reply& reply)
+         {
+            update( reply.correlation, reply.transaction_state);
+         }
+
+         void Context::update( const strong::correlation::id& correlation, message::service::transaction::State transaction_state)
          {
             Trace trace{ "transaction::Context::update"};
 
@@ -521,15 +526,15 @@ namespace casual
                return Transaction::State::rollback;
             };
 
-            if( auto found = algorithm::find( m_transactions, reply.correlation))
+            if( auto found = algorithm::find( m_transactions, correlation))
             {
-               auto state = transform_state( reply.transaction_state);
+               auto state = transform_state( transaction_state);
 
                if( found->state < state)
                   found->state = state;
 
                // this descriptor is done, and we can remove the association to the transaction
-               found->replied( reply.correlation);
+               found->replied( correlation);
             }
             // TODO:
             // We seem to propagate transaction state even if the call was not in a transaction
-- 
2.43.0


From 3c8ccca2764eab5a0389dbc157c4c2876c1c1056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 45/61] fix: conversation: a connect that fails is reported,
 and is never waited for forever nor acknowledged by the caller

---
 .../source/service/conversation/context.cpp   | 74 ++++++++++++-------
 1 file changed, 46 insertions(+), 28 deletions(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index 2be2afa..e3b73c0 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -239,6 +239,50 @@ namespace casual
 
                   } // check
 
+                  namespace connect
+                  {
+                     //! waits for the outcome of the connect request. Throws if the conversation is not established.
+                     void reply( const strong::correlation::id& correlation)
+                     {
+                        // * the normal reply, that could be a failure from another domain
+                        // * the service failed before the conversation is established
+                        // * service-manager has detected that the server terminated, or a timeout
+                        constexpr static auto types = common::array::make(
+                           message::conversation::connect::Reply::type(),
+                           message::conversation::callee::Send::type(),
+                           message::service::call::Reply::type());
+
+                        auto complete = communication::device::blocking::next(
+                           communication::ipc::inbound::device(),
+                           types,
+                           correlation);
+
+                        auto deserialize_code = [ &complete]( auto message)
+                        {
+                           serialize::native::complete( complete, message);
+                           log::line( log::debug, "connect - reply: ", message);
+                           return message.code.result;
+                        };
+
+                        if( complete.type() == message::conversation::connect::Reply::type())
+                        {
+                           if( auto code = deserialize_code( message::conversation::connect::Reply{}); ! algorithm::compare::any( code, code::xatmi::absent, code::xatmi::ok))
+                              code::raise::error( code, "failed to connect");
+
+                           return;
+                        }
+
+                        auto code = complete.type() == message::conversation::callee::Send::type() ? 
+                           deserialize_code( message::conversation::callee::Send{}) 
+                           : deserialize_code( message::service::call::Reply{});
+
+                        if( algorithm::compare::any( code, code::xatmi::absent, code::xatmi::ok))
+                           code = code::xatmi::service_error;
+
+                        code::raise::error( code, "failed to connect");
+                     }
+                  } // connect
+
                   //! the conversation is done, regardless of how.
                   void done( State& state, strong::conversation::descriptor::id descriptor, message::service::transaction::State transaction_state)
                   {
@@ -281,8 +325,6 @@ namespace casual
                log::line( log::debug, "service: ", service, " buffer: ", buffer, " flags: ", flags);
 
 
-               auto start = platform::time::clock::type::now();
-
                auto descriptor = m_state.descriptors.reserve(
                   // Use the correlation id from the lookup
                   // in the connect! Seems as if service manager remembers
@@ -327,27 +369,6 @@ namespace casual
                   }
                }
 
-               // If something goes wrong (most likely a timeout), we need to send ack to broker in that case, cus the service(instance)
-               // will not do it...
-               auto send_ack = common::execute::scope( [&]()
-               {
-                  message::service::call::ACK ack;
-
-                  ack.execution = message.execution;
-                  ack.metric.execution = message.execution;
-                  ack.metric.span = strong::execution::span::id::generate();
-                  ack.metric.service = service;
-                  ack.metric.parent = message.parent;
-                  ack.metric.process = common::process::handle();
-                  ack.metric.trid = message.trid;
-
-                  ack.metric.start = start;
-                  ack.metric.end = platform::time::clock::type::now();
-
-                  communication::device::blocking::send( communication::instance::outbound::service::manager::device(), ack);
-               });
-
-
                value.process = target.process;
 
                log::line( verbose::log, "descriptor: ", descriptor, ", value: ", value);
@@ -358,15 +379,12 @@ namespace casual
 
                   log::line( log::debug, "connect - request: ", message);
 
-                  auto reply = communication::ipc::call( target.process.ipc, message);
-
-                  log::line( log::debug, "connect - reply: ", reply);
+                  communication::device::blocking::send( target.process.ipc, message);
 
+                  local::connect::reply( value.correlation);
                }
 
                unreserve.release();
-               send_ack.release();
-
 
                return descriptor;
             }
-- 
2.43.0


From a91a72583cec2b39639da4c63a79550b95040feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:50 +0000
Subject: [PATCH 46/61] fix: conversation: a conversational service that fails
 does not commit its transaction

---
 middleware/common/source/server/handle/service.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index 4701a7f..54ed410 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -150,9 +150,15 @@ namespace casual
             reply.duplex = decltype( reply.duplex)::terminated;
 
             if( result.transaction == common::service::invoke::Result::Transaction::commit)
-               reply.code.result = code::xatmi::ok;  
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::ok;
+               reply.code.result = code::xatmi::ok;
+            }
             else
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::rollback;
                reply.code.result = code::xatmi::service_fail;
+            }
 
 
             log::line( log::debug, "reply: ", reply);
-- 
2.43.0


From 8f7402249e944789c1431a85b211a5dd49486737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:51 +0000
Subject: [PATCH 47/61] fix: conversation: the event is told also when the
 conversation ends without a buffer

---
 middleware/common/source/service/conversation/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index e3b73c0..1d469b9 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -640,6 +640,7 @@ namespace casual
                      default:
                         result.event = decltype( result.event)::service_error;
                         result.user = 0; // a predictable user return code...
+                        result.buffer = buffer::Payload{ nullptr}; // there is no data, nor a type of it
                         break;
                   }
                   
-- 
2.43.0


From 9358cb3b2142d8434087329e6ad640418d5cac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 48/61] fix: transaction: a transaction with a resource that
 fails to end is rolled back, not left at the resources

---
 .../common/include/common/transaction/context.h   |  3 +++
 middleware/common/source/transaction/context.cpp  | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index af3ede2..5f354b2 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -162,6 +162,9 @@ namespace casual
          [[nodiscard]] code::tx commit( const Transaction& transaction);
          [[nodiscard]] code::tx rollback( const Transaction& transaction);
 
+         //! rollback a transaction that is ended at all resources
+         [[nodiscard]] code::tx rollback_ended( const Transaction& transaction);
+
 
          [[nodiscard]] code::tx resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags);
          [[nodiscard]] code::tx resource_rollback( strong::resource::id rm, const Transaction& transaction);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 2b664db..83e2203 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -845,7 +845,11 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               // we can't commit, and nobody else will complete the transaction.
+               common::log::line( common::log::category::error, code, " commit - failed to end one or more resources - action: rollback transaction: ", transaction.trid);
+               return code::tx::rollback + rollback_ended( transaction);
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -937,10 +941,15 @@ namespace casual
             Trace trace{ "transaction::Context::rollback"};
             casual::assertion( transaction, "not a valid transaction: ", transaction);
 
-            // end resources
+            // end resources, we need to rollback even if some of the resources fail.
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               common::log::line( common::log::category::error, code, " rollback - failed to end one or more resources for transaction: ", transaction.trid);
 
+            return rollback_ended( transaction);
+         }
+
+         code::tx Context::rollback_ended( const Transaction& transaction)
+         {
             if( transaction.local())
             {
                log::line( log::category::transaction, "rollback is local");
-- 
2.43.0


From 2e67bc19e15113228350091abc60354f3223fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:32 +0000
Subject: [PATCH 49/61] fix: transaction: a chained transaction that can not
 begin is told together with the outcome of the completed

---
 middleware/common/source/transaction/context.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 83e2203..3d37edc 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1188,7 +1188,14 @@ namespace casual
                   
                case Control::chained:
                   // We start a new one
-                  return code + begin();
+                  if( begin() == code::tx::ok)
+                     return code;
+
+                  // let the user know the outcome of the completed one _and_ that there is no new one.
+                  if( algorithm::compare::any( code, code::tx::ok, code::tx::rollback, code::tx::mixed, code::tx::hazard, code::tx::committed))
+                     return code + code::tx::no_begin;
+
+                  return code;
 
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
-- 
2.43.0


From 321f9d0f84d33cc13a3c084d00afd390b14c1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:11 +0000
Subject: [PATCH 50/61] fix: transaction: a begin that fails leaves nothing at
 the resources, and the current transaction continues

---
 middleware/common/source/transaction/context.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 3d37edc..4b5957e 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -727,7 +727,13 @@ namespace casual
 
                   // Tell the RM:s to suspend
                   if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), transaction, m_resources.all); code != code::tx::ok)
+                  {
+                     // the transaction is still the current, the ones that did suspend need to be resumed.
+                     if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), transaction, m_resources.all); code != code::tx::ok)
+                        common::log::line( common::log::category::error, code, " failed to resume resources for transaction: ", transaction);
+
                      return local::log::code( code, "failed to suspend resources for transaction: ", transaction);
+                  }
                }
                else if( ! transaction.dynamic().empty())
                   return code::tx::outside;
@@ -747,15 +753,21 @@ namespace casual
 
                if( failed)
                {
-                  // some of the resources failed, make sure we xa_end the successful ones...
+                  // some of the resources failed, make sure we xa_end and rollback the successful ones...
                   algorithm::for_each( successful, [ &transaction]( auto& resource)
                   {
                      // TODO semantics: is it ok to end with success? Seams better than 
                      // to mark this extremely short lived transaction with 'error'. Don't know
                      // how resources "wants it"...
                      resource.end( transaction.trid, flag::xa::Flag::success);
+                     resource.rollback( transaction.trid, flag::xa::Flag::no_flags);
                   });
 
+                  // ...and the current transaction (if any) continues.
+                  if( auto& current = Context::current())
+                     if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all); code != code::tx::ok)
+                        common::log::line( common::log::category::error, code, " failed to resume resources for transaction: ", current);
+
                   return local::log::code( code::tx::error, "some resources failed to start: ", algorithm::transform( failed, []( auto& rm){ return rm.id();}));
                }
             }            
-- 
2.43.0


From 925df954dde33e0f0e156361016f6ef074fa7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 51/61] fix: transaction: a transaction that fails to suspend
 or resume stays as it was

---
 .../common/source/transaction/context.cpp     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 4b5957e..e2e6c85 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1097,12 +1097,18 @@ namespace casual
 
             // We don't check if current transaction is aborted. This differs from Tuxedo's semantics
 
-            // mark the transaction as suspended
-            ongoing.suspend();
-
             // Tell the RM:s to suspend
             if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), ongoing, m_resources.all); code != code::tx::ok)
+            {
+               // the transaction is still the current, the ones that did suspend need to be resumed.
+               if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), ongoing, m_resources.all); code != code::tx::ok)
+                  common::log::line( common::log::category::error, code, " suspend: failed to resume one or more resources");
+
                return local::log::code( code::tx::protocol, "suspend: failed to suspend one or more resources");
+            }
+
+            // mark the transaction as suspended
+            ongoing.suspend();
 
             *xid = ongoing.trid.xid;
 
@@ -1123,11 +1129,17 @@ namespace casual
                if( ! found->suspended())
                   return local::log::code( code::tx::protocol, "resume: wanted transaction is not suspended");
 
-               found->resume();
-
                // Tell the RM:s to resume
                if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), *found, m_resources.fixed); code != code::tx::ok)
+               {
+                  // the transaction is still suspended, the ones that did resume need to be suspended.
+                  if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), *found, m_resources.fixed); code != code::tx::ok)
+                     common::log::line( common::log::category::error, code, " resume: failed to suspend one or more fixed resources");
+
                   return local::log::code( code::tx::argument, "resume: failed to resume one or more fixed resources");
+               }
+
+               found->resume();
 
                // We rotate the wanted to end;
                algorithm::rotate( m_transactions, ++found);
-- 
2.43.0


From ee1940dd4aefa9c44054af5f1b1df96e8f15eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:20 +0000
Subject: [PATCH 52/61] fix: transaction: a call that fails to suspend the
 resources leaves the transaction as it was

---
 middleware/common/source/transaction/context.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index e2e6c85..87cb4cd 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1172,8 +1172,14 @@ namespace casual
                return;
 
             // Tell the RM:s to suspend
-            local::raise::code( local::resources::end::invoke( local::resources::end::policy::suspend(), transaction, m_resources.all),
-               "failed to suspend one ore more resource");
+            if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), transaction, m_resources.all); code != code::tx::ok)
+            {
+               // the ones that did suspend need to be resumed.
+               if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), transaction, m_resources.fixed); code != code::tx::ok)
+                  common::log::line( common::log::category::error, code, " failed to resume one or more resources");
+
+               local::raise::code( code, "failed to suspend one ore more resource");
+            }
          }
 
          code::tx Context::resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags)
-- 
2.43.0


From 6a3f6b69e2e8796e4f632ed14f07c7254c1525ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:39 +0000
Subject: [PATCH 53/61] fix: transaction: a stacked transaction continues also
 when the control is changed

---
 middleware/common/source/transaction/context.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 87cb4cd..dec2205 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1209,10 +1209,16 @@ namespace casual
             Trace trace{ "transaction::Context::control_continuation"};
             log::line( verbose::log, "code: ", code);
 
+            // If there is a transaction that has been stacked, it is the current again, regardless of
+            // what control is by now. Tell the RM:s to resume.
+            if( auto& current = Context::current())
+               return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
+
             // Dependent on control we do different stuff
             switch( m_control)
             {
                case Control::unchained:
+               case Control::stacked:
                   // no op
                   return code; 
                   
@@ -1226,12 +1232,6 @@ namespace casual
                      return code + code::tx::no_begin;
 
                   return code;
-
-               case Control::stacked:
-                  // Tell the RM:s to resume, if we've got a transaction
-                  if( auto& current = Context::current())
-                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
-                  return code;
             }
 
             casual::terminate( code::casual::internal_unexpected_value, "unknown control directive: ", std::to_underlying( m_control), " - this can not happen");
-- 
2.43.0


From d864c6746ff93e33c4d4710e3c00a96c9929f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:10 +0000
Subject: [PATCH 54/61] fix: conversation: a service that fails without
 tpreturn terminates the conversation

---
 middleware/common/source/server/handle/service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index 54ed410..23fdb3f 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -59,6 +59,8 @@ namespace casual
             message::conversation::callee::Send result;
 
             result.correlation = message.correlation;
+            // regardless of the outcome, the reply terminates the conversation
+            result.duplex = decltype( result.duplex)::terminated;
             result.buffer = buffer::Payload{ nullptr};
             result.code.result = code::xatmi::service_error;
 
-- 
2.43.0


From 576e453f8da8f184dc15fee0d3160859655ec928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:49 +0000
Subject: [PATCH 55/61] fix: conversation: a conversational service that fails
 does not bring the server down

---
 .../common/source/server/handle/conversation.cpp     | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/server/handle/conversation.cpp b/middleware/common/source/server/handle/conversation.cpp
index 67aefec..c0f16c3 100644
--- a/middleware/common/source/server/handle/conversation.cpp
+++ b/middleware/common/source/server/handle/conversation.cpp
@@ -13,6 +13,7 @@
 #include "common/communication/ipc.h"
 
 #include "common/execute.h"
+#include "common/exception/capture.h"
 
 namespace casual
 {
@@ -28,9 +29,16 @@ namespace casual
                Trace trace{ "server::handle::Conversation::operator()"};
                log::line( verbose::log, "message: ", message);
 
-               policy::call::Default policy;
+               try
+               {
+                  policy::call::Default policy;
 
-               service::call( policy, common::service::conversation::context(), message, true);
+                  service::call( policy, common::service::conversation::context(), message, true);
+               }
+               catch( ...)
+               {
+                  log::line( log::category::error, exception::capture());
+               }
    
             }
 
-- 
2.43.0


From 0e74e8754e65614f510ed2b857a513c0dc895fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:49 +0000
Subject: [PATCH 56/61] fix: transaction: a transaction with pending replies at
 the end of the service is rolled back

---
 middleware/common/source/transaction/context.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index dec2205..7a8c550 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -568,6 +568,9 @@ namespace casual
                      log::line( log::category::transaction, transaction);
 
                      result = message::service::transaction::State::error;
+
+                     if( transaction.state == Transaction::State::active)
+                        transaction.state = Transaction::State::rollback;
                   }
 
                   // Discard pending
-- 
2.43.0


From f43b384ee854f4b030757aa32d638fd2a033d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:49 +0000
Subject: [PATCH 57/61] fix: transaction: a service whose own transaction can
 not be committed does not reply success

---
 middleware/common/source/transaction/context.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 7a8c550..aa71b57 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -631,6 +631,11 @@ namespace casual
                return transaction.trid.owner() != process::handle();
             });
 
+            // if an owned transaction can't be committed, the outcome is not what the service asked for.
+            if( commit)
+               for( auto& transaction : owner)
+                  result += transform_state( transaction.state);
+
             // take care of owned transactions
             auto code = algorithm::accumulate( owner, code::tx::ok, local::accumulate::code( invoke_commit_rollback));
 
-- 
2.43.0


From 05082d8ff9321547442f6cabbb5b17bbd34f880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:49 +0000
Subject: [PATCH 58/61] fix: service: forward is refused with pending replies
 or rollback only transactions

---
 middleware/common/include/common/transaction/context.h | 3 +++
 middleware/common/source/server/handle/policy.cpp      | 4 ++++
 middleware/common/source/transaction/context.cpp       | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 5f354b2..c7e21b2 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -120,6 +120,9 @@ namespace casual
          //! process
          bool pending() const;
 
+         //! @return true if there are no pending replies, or rollback only state, associated with any transaction
+         bool committable() const noexcept;
+
          [[nodiscard]] std::vector< strong::resource::id> resources() const noexcept;
 
          //! @attention only for unittest... temporary until we fix the "context-fiasco".
diff --git a/middleware/common/source/server/handle/policy.cpp b/middleware/common/source/server/handle/policy.cpp
index 919aeb6..e2d7445 100644
--- a/middleware/common/source/server/handle/policy.cpp
+++ b/middleware/common/source/server/handle/policy.cpp
@@ -204,6 +204,10 @@ namespace casual
                   if( transaction::context().pending())
                      code::raise::error( code::xatmi::service_error, "forward with pending transactions - service: ", message.service.name);
 
+                  // the outcome so far is only known by us, the service we forward to can't take it into account.
+                  if( ! transaction::context().committable())
+                     code::raise::error( code::xatmi::service_error, "forward with pending replies or rollback only transactions - service: ", message.service.name);
+
                   common::service::Lookup lookup{
                      forward.parameter.service.name,
                      decltype( common::service::lookup::Context::semantic)::no_reply};
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index aa71b57..de196aa 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -208,6 +208,14 @@ namespace casual
             }).empty();
          }
 
+         bool Context::committable() const noexcept
+         {
+            return algorithm::none_of( m_transactions, []( const Transaction& transaction)
+            {
+               return transaction.trid && ( transaction.pending() || transaction.state != Transaction::State::active);
+            });
+         }
+
          namespace local
          {
             namespace
-- 
2.43.0


From d55cf2d61489756264cc19fbb43e9d40bf8ca855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:25 +0000
Subject: [PATCH 59/61] fix: queue: a forward resumes, and loses nothing, when
 a queue it uses is lost

- dequeues and enqueues keep track of where they were sent, hence they end also if the forward uses another queue group by now
- a queue group that is lost, before or after it is told, ends the dequeues that wait there
- a message that can not be sent to the target is rolled back
- queues that are missing are looked up, regardless of lookups for the other queue
---
 .../queue/include/queue/forward/state.h       |  29 +++-
 middleware/queue/source/forward/handle.cpp    | 132 ++++++++++++------
 2 files changed, 118 insertions(+), 43 deletions(-)

diff --git a/middleware/queue/include/queue/forward/state.h b/middleware/queue/include/queue/forward/state.h
index 7cd1e42..9a4331a 100644
--- a/middleware/queue/include/queue/forward/state.h
+++ b/middleware/queue/include/queue/forward/state.h
@@ -281,12 +281,28 @@ namespace casual
             {
                struct Lookup : base
                {
+                  //! name of the queue
+                  std::string name;
+
+                  CASUAL_LOG_SERIALIZE(
+                     base::serialize( archive);
+                     CASUAL_SERIALIZE( name);
+                  )
                };
 
             } // queue
 
             struct Dequeue : transaction_base
             {
+               //! the queue group the request is sent to
+               common::process::Handle source;
+
+               inline friend bool operator == ( const Dequeue& lhs, common::process::compare_equal_to_handle auto rhs) { return lhs.source == rhs;}
+
+               CASUAL_LOG_SERIALIZE(
+                  transaction_base::serialize( archive);
+                  CASUAL_SERIALIZE( source);
+               )
             };
 
             namespace service
@@ -349,7 +365,18 @@ namespace casual
             struct Enqueue : transaction_base
             {
                Enqueue() = default;
-               Enqueue( const transaction_base& other) : transaction_base{ other} {}
+               Enqueue( const transaction_base& other, common::process::Handle destination) 
+                  : transaction_base{ other}, destination{ destination} {}
+
+               //! the queue group the request is sent to
+               common::process::Handle destination;
+
+               inline friend bool operator == ( const Enqueue& lhs, common::process::compare_equal_to_handle auto rhs) { return lhs.destination == rhs;}
+
+               CASUAL_LOG_SERIALIZE(
+                  transaction_base::serialize( archive);
+                  CASUAL_SERIALIZE( destination);
+               )
             };
 
          } // pending
diff --git a/middleware/queue/source/forward/handle.cpp b/middleware/queue/source/forward/handle.cpp
index 5dd95d9..9669837 100644
--- a/middleware/queue/source/forward/handle.cpp
+++ b/middleware/queue/source/forward/handle.cpp
@@ -151,6 +151,7 @@ namespace casual
 
                         state::pending::queue::Lookup pending;
                         pending.id = id;
+                        pending.name = name;
                         pending.correlation = state.multiplex.send( ipc::queue::manager(), request);
                         return pending;
                      };
@@ -172,6 +173,29 @@ namespace casual
                      state.pending.queue.lookups.push_back( detail::send::request( state, forward.id, forward.target.queue));
                   }
 
+                  //! sends lookup for the queue if it's not valid, and there is no lookup for it already
+                  void missing( State& state, state::forward::id id, const state::forward::Source& queue)
+                  {
+                     auto is_pending = [ id, &queue]( auto& pending){ return pending.id == id && pending.name == queue.queue;};
+
+                     if( ! queue && ! algorithm::find_if( state.pending.queue.lookups, is_pending))
+                        state.pending.queue.lookups.push_back( detail::send::request( state, id, queue.queue));
+                  }
+
+                  void missing( State& state, state::forward::Service& forward)
+                  {
+                     missing( state, forward.id, forward.source);
+
+                     if( forward.reply)
+                        missing( state, forward.id, *forward.reply);
+                  }
+
+                  void missing( State& state, state::forward::Queue& forward)
+                  {
+                     missing( state, forward.id, forward.source);
+                     missing( state, forward.id, forward.target);
+                  }
+
                } // detail
 
                auto request( State& state)
@@ -202,6 +226,16 @@ namespace casual
             {
                namespace dequeue
                {
+                  //! 'fakes' that the blocking dequeue is discarded, to keep the "state-machine" going when
+                  //! the source is lost
+                  void discarded( const strong::correlation::id& correlation)
+                  {
+                     ipc::message::group::dequeue::forget::Reply message;
+                     message.correlation = correlation;
+                     message.discarded = true;
+                     ipc::device().push( message);
+                  }
+
                   template< typename F>
                   void request( State& state, F& forward)
                   {
@@ -224,15 +258,22 @@ namespace casual
                         pending.id = forward.id;
                         pending.correlation = request.correlation;
                         pending.trid = request.trid;
+                        pending.source = forward.source.process;
 
                         state.pending.dequeues.push_back( std::move( pending));
                         ++forward;
 
                         state.multiplex.send( forward.source.process.ipc, request, [ &state]( auto& ipc, auto& complete)
                         {
-                           algorithm::container::erase( state.pending.dequeues, complete.correlation());
-                           // TODO send "error reply"?
+                           // the source is lost, we need to lookup the queue again.
+                           if( auto found = algorithm::find( state.pending.dequeues, complete.correlation()))
+                              state.forward_apply( found->id, [ &ipc]( auto& forward)
+                              { 
+                                 if( forward.source.process.ipc == ipc) 
+                                    forward.source.invalidate();
+                              });
 
+                           dequeue::discarded( complete.correlation());
                         });
                         
                      };
@@ -291,7 +332,10 @@ namespace casual
                   ipc::message::group::dequeue::forget::Request request{ process::handle()};
                   request.correlation = pending.correlation;
                   
-                  state.multiplex.send( forward.source.process.ipc, request);
+                  state.multiplex.send( pending.source.ipc, request, []( auto& ipc, auto& complete)
+                  {
+                     local::send::dequeue::discarded( complete.correlation());
+                  });
                }
 
                template< typename F>
@@ -304,29 +348,20 @@ namespace casual
                   state.multiplex.send( ipc::service::manager(), request);
                }
 
-               template< typename F>
-               void request( State& state, const F& forward, const state::pending::queue::Lookup& pending)
-               {
-                  ipc::message::lookup::discard::Request request{ process::handle()};
-                  request.correlation = pending.correlation;
-
-                  state.multiplex.send( ipc::queue::manager(), request);
-               }
-
             } // detail::send::discard
 
             namespace detail::machine
             {
                // if the queues are _not invalidated_ we try to dequeue again.
-               //! Otherwise we lookup the queues, unless we have pending lookups for
-               //! the queues
+               //! Otherwise we lookup the queues that are missing, unless we have pending 
+               //! lookups for them
                template< typename F>
                void next( State& state, F& forward)
                {
                   if( forward.valid_queues())
                      local::send::dequeue::request( state, forward);
-                  else if( ! algorithm::find( state.pending.queue.lookups, forward.id))
-                     local::queue::lookup::detail::request( state, forward);
+                  else
+                     local::queue::lookup::detail::missing( state, forward);
                }
             } // detail::machine
 
@@ -577,9 +612,18 @@ namespace casual
 
                            log::line( verbose::log, "enqueue request: ", request);
 
-                           state.multiplex.send( forward->target.process.ipc, request);
-                           state.pending.enqueues.emplace_back( std::move( *pending));
+                           state.pending.enqueues.emplace_back( std::move( *pending), forward->target.process);
+                           state.multiplex.send( forward->target.process.ipc, request, [ &state]( auto& ipc, auto& complete)
+                           {
+                              // the target is lost, remove the added pending.
+                              if( auto pending = pending::consume( state.pending.enqueues, complete.correlation()))
+                              {
+                                 if( auto forward = state.forward_queue( pending->id); forward && forward->target.process.ipc == ipc)
+                                    forward->target.invalidate();
 
+                                 send::transaction::rollback::request( state, std::move( *pending));
+                              }
+                           });
                         }
                      };
                   }
@@ -765,7 +809,7 @@ namespace casual
 
                               log::line( verbose::log, "enqueue reply: ", request);
                               
-                              state.pending.enqueues.emplace_back( std::move( *call));
+                              state.pending.enqueues.emplace_back( std::move( *call), reply.process);
                               state.multiplex.send( reply.process.ipc, request, [ &state]( auto& ipc, auto& complete)
                               {
                                  // remove the added pending.
@@ -974,59 +1018,63 @@ namespace casual
 
                         log::line( verbose::log, "state.pending: ", state.pending);
 
+                        // dequeues that wait at the lost source (which might not be the current source of the forward)
+                        for( auto& pending : algorithm::filter( state.pending.dequeues, [ handle]( auto& pending){ return pending == handle;}))
+                           send::dequeue::discarded( pending.correlation);
+
+                        // if we've got pending enqueues to lost target (which might not be the current target of the forward)
+                        // we need to fake a reply to keep the "state-machine" going
+                        for( auto& pending : algorithm::filter( state.pending.enqueues, [ handle]( auto& pending){ return pending == handle;}))
+                           detail::push::faked::reply( pending);
+
                         // g++13 incorrectly gives a warning "unused-but-set-variable"
                         // for is_forward. Bug reported
                         // (https://gcc.gnu.org/bugzilla/show_bug.cgi?id=114450)
                         [[maybe_unused]] static constexpr auto is_forward = []( auto id) { return [ id]( auto& forward){ return forward == id;};};
 
-                        auto invalidate_queue_forward = [ &state, handle]( auto& forward)
+                        auto lookup_missing = [ &state]( auto& forward)
+                        {
+                           if( state.runlevel == decltype( state.runlevel())::running && forward.enabled && forward.instances.configured > 0)
+                              local::queue::lookup::detail::missing( state, forward);
+                        };
+
+                        auto invalidate_queue_forward = [ &state, handle, lookup_missing]( auto& forward)
                         {
                            log::line( verbose::log, "forward: ", forward);
 
                            if( forward != handle)
                               return;
 
-                           for( auto& pending : algorithm::filter( state.pending.queue.lookups, is_forward( forward.id)))
-                              local::detail::send::discard::request( state, forward, pending);
-
                            for( auto& pending : algorithm::filter( state.pending.dequeues, is_forward( forward.id)))
                               local::detail::send::discard::request( state, forward, pending);
 
-                           if( forward.target != handle)
-                              return;
+                           if( forward.source == handle)
+                              forward.source.invalidate();
 
-                           forward.target.invalidate();
+                           if( forward.target == handle)
+                              forward.target.invalidate();
 
-                           // if we've got pending enqueues to lost target we need to fake a reply
-                           // to keep the "state-machine" going
-                           for( auto& pending : algorithm::filter( state.pending.enqueues, is_forward( forward.id)))
-                              detail::push::faked::reply( pending);
-                             
+                           lookup_missing( forward);
                         };
 
                         algorithm::for_each( state.forward.queues, invalidate_queue_forward);
 
 
-                        auto invalidate_service_forward = [ &state, handle]( auto& forward)
+                        auto invalidate_service_forward = [ &state, handle, lookup_missing]( auto& forward)
                         {
                            if( forward != handle)
                               return;
 
-                           for( auto& pending : algorithm::filter( state.pending.queue.lookups, is_forward( forward.id)))
-                              local::detail::send::discard::request( state, forward, pending);
-
                            for( auto& pending : algorithm::filter( state.pending.dequeues, is_forward( forward.id)))
                               local::detail::send::discard::request( state, forward, pending);
 
-                           if( forward.reply != handle)
-                              return;
+                           if( forward.source == handle)
+                              forward.source.invalidate();
 
-                           forward.reply->invalidate();
+                           if( forward.reply == handle)
+                              forward.reply->invalidate();
 
-                           // if we've got pending enqueues to lost reply we need to fake a reply
-                           // to keep the "state-machine" going
-                           for( auto& pending : algorithm::filter( state.pending.enqueues, is_forward( forward.id)))
-                              detail::push::faked::reply( pending);
+                           lookup_missing( forward);
                         };
 
                         algorithm::for_each( state.forward.services, invalidate_service_forward);
-- 
2.43.0


From 13fb250616148f558a52a57da7739b9b0ab35619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:41 +0000
Subject: [PATCH 60/61] fix: transaction: tx_info tells the commit return

---
 middleware/common/source/transaction/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index de196aa..689d0a1 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1058,6 +1058,7 @@ namespace casual
             if( info)
             {
                info->xid = transaction.trid.xid;
+               info->when_return = std::to_underlying( m_commit_return);
                info->transaction_state = static_cast< decltype( info->transaction_state)>( transaction.state);
                info->transaction_timeout = std::chrono::duration_cast< std::chrono::seconds>( m_timeout).count();
                info->transaction_control = std::to_underlying( m_control);
-- 
2.43.0


From df7b939be70e07b931c489b67eeb5afb61bedead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:59 +0000
Subject: [PATCH 61/61] fix: service: call descriptors that a service leaves
 are discarded when it is done

---
 .../common/include/common/server/handle/service.h    |  3 +++
 .../common/include/common/service/call/state.h       |  3 +++
 middleware/common/source/service/call/context.cpp    |  2 +-
 middleware/common/source/service/call/state.cpp      | 12 ++++++++++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index 1ba578f..0fda7ff 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -93,6 +93,9 @@ namespace casual
             ack.metric.pending = message.pending;
             ack.metric.code = reply.code;
 
+            // descriptors that the service has not consumed are not valid when the service is done.
+            common::service::call::context().clean();
+
             policy.ack( ack);
             server::context().finalize();
          });
diff --git a/middleware/common/include/common/service/call/state.h b/middleware/common/include/common/service/call/state.h
index fa6f90a..3465387 100644
--- a/middleware/common/include/common/service/call/state.h
+++ b/middleware/common/include/common/service/call/state.h
@@ -60,6 +60,9 @@ namespace casual
             //! Tries to discard descriptor, throws if fail.
             void discard( descriptor_type descriptor);
 
+            //! Discards all descriptors, and the replies for them.
+            void clear();
+
             //! @returns true if there are no pending replies or associated transactions.
             //!  Thus, it's ok to do a service-forward
             bool empty() const;
diff --git a/middleware/common/source/service/call/context.cpp b/middleware/common/source/service/call/context.cpp
index 1f73943..1c64adf 100644
--- a/middleware/common/source/service/call/context.cpp
+++ b/middleware/common/source/service/call/context.cpp
@@ -379,7 +379,7 @@ namespace casual
 
       void Context::clean()
       {
-         // TODO: Do some cleaning on buffers, pending replies and such...
+         m_state.pending.clear();
       }
 
       Context::Context() = default;
diff --git a/middleware/common/source/service/call/state.cpp b/middleware/common/source/service/call/state.cpp
index 6598e39..c7d7593 100644
--- a/middleware/common/source/service/call/state.cpp
+++ b/middleware/common/source/service/call/state.cpp
@@ -112,6 +112,18 @@ namespace casual
             unreserve( descriptor);
          }
 
+         void Pending::clear()
+         {
+            for( auto& descriptor : m_descriptors)
+            {
+               if( ! std::exchange( descriptor.active, false))
+                  continue;
+
+               // Discards the correlation (directly if in cache, or later if not)
+               communication::ipc::inbound::device().discard( descriptor.correlation);
+            }
+         }
+
          bool Pending::empty() const
          {
             return algorithm::all_of( m_descriptors, predicate::negate( std::mem_fn( &pending::Descriptor::active)));
-- 
2.43.0

