//! a queue group among peers
#pragma once
#include "peers.h"
#include "queue/common/ipc/message.h"
#include "common/message/transaction.h"
#include "common/message/event.h"

namespace demo::queue
{
   namespace qg = casual::queue::ipc::message::group;
   using Code = cc::code::queue;
   inline cc::process::Handle group;
   inline std::map< std::string, cc::strong::queue::id> ids;

   struct Settings { int retry = 0; std::chrono::milliseconds delay{}; std::vector< std::string> queues{ "a"};};

   //! @param crash type of the message after which the group is to crash, once it has sent it
   inline void boot( Settings settings = {}, msg::Type crash = {})
   {
      static bool first = true;
      if( std::exchange( first, false)) demo::boot();
      auto& manager = peer( "queue-manager");
      domain().singleton( cc::communication::instance::identity::queue::manager, manager.handle);
      domain().singleton( cc::communication::instance::identity::transaction::manager, peer( "tm").handle);
      bool configured = false;
      manager.on< qg::Connect>( [ &, settings]( auto& message)
      {
         qg::configuration::update::Request request{ manager.handle};
         request.model.alias = "group";
         request.model.queuebase = scratch + "/group.qb";
         for( auto& name : settings.queues)
         {
            auto& queue = request.model.queues.emplace_back();
            queue.name = name;
            queue.retry.count = settings.retry;
            queue.retry.delay = settings.delay;
         }
         send( message.process, request);
      });
      manager.on< qg::configuration::update::Reply>( [ &]( auto& message) { for( auto& q : message.queues) ids[ q.name] = q.id; configured = true;});
      ::setenv( "DEMO_CRASH_AFTER", crash != msg::Type{} ? std::to_string( int( crash)).c_str() : "0", 1);
      ::setenv( "DEMO_PID", std::to_string( ::getpid()).c_str(), 1);
      group = start( "/repo/middleware/queue/bin/casual-queue-group");
      ::setenv( "DEMO_CRASH_AFTER", "0", 1);
      for( int i = 0; i < 200 && ! configured; ++i) pump( 10);
      if( ! configured) leave( 2, "the group does not get configured");
   }

   inline cc::transaction::ID transaction( Peer& owner) { return cc::transaction::id::create( owner.handle);}

   inline std::optional< qg::enqueue::Reply> enqueue( Peer& client, const std::string& name, std::vector< char> data, cc::transaction::ID trid = {}, std::string properties = {}, cc::Uuid id = {})
   {
      qg::enqueue::Request m{ client.handle};
      m.trid = trid;
      m.name = name;
      m.message.id = id;
      m.message.attributes.properties = properties;
      m.message.payload.type = "X_OCTET/";
      for( auto c : data) m.message.payload.data.push_back( std::byte( c));
      m.correlation = cc::strong::correlation::id::generate();
      send( group, m);
      return take< qg::enqueue::Reply>( client);
   }

   inline cc::strong::correlation::id ask( Peer& client, const std::string& name, bool block = false, cc::transaction::ID trid = {}, std::string properties = {}, cc::Uuid id = {})
   {
      qg::dequeue::Request m{ client.handle};
      m.trid = trid;
      m.name = name;
      m.block = block;
      m.selector.properties = properties;
      m.selector.id = id;
      m.correlation = cc::strong::correlation::id::generate();
      send( group, m);
      return m.correlation;
   }

   inline std::optional< qg::dequeue::Reply> dequeue( Peer& client, const std::string& name, cc::transaction::ID trid = {}, std::string properties = {}, cc::Uuid id = {})
   {
      ask( client, name, false, trid, properties, id);
      return take< qg::dequeue::Reply>( client);
   }

   template< typename Request, typename Reply>
   bool end( Peer& owner, const cc::transaction::ID& trid)
   {
      Request m{ owner.handle};
      m.trid = trid;
      m.correlation = cc::strong::correlation::id::generate();
      send( group, m);
      auto reply = take< Reply>( owner);
      return reply && reply->state == cc::code::xa::ok;
   }
   inline bool prepare( Peer& owner, const cc::transaction::ID& trid) { return end< msg::transaction::resource::prepare::Request, msg::transaction::resource::prepare::Reply>( owner, trid);}
   inline bool commit( Peer& owner, const cc::transaction::ID& trid) { return end< msg::transaction::resource::commit::Request, msg::transaction::resource::commit::Reply>( owner, trid);}
   inline bool rollback( Peer& owner, const cc::transaction::ID& trid) { return end< msg::transaction::resource::rollback::Request, msg::transaction::resource::rollback::Reply>( owner, trid);}

   //! waits for the group to be gone
   inline void gone() { for( auto pid : children) ::waitpid( pid, nullptr, 0); children.clear();}
}
