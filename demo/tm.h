//! the transaction manager among peers. All resources are external (as gateways and queue groups are)
#pragma once
#include "peers.h"

namespace demo::tm
{
   namespace txm = msg::transaction;
   namespace tr = msg::transaction::resource;
   using xa = cc::code::xa;
   using tx = cc::code::tx;
   inline cc::process::Handle manager;

   inline std::string log() { return scratch + "/tm.db";}

   //! @param crash type of the message after which the manager is to crash, once it has sent it
   inline void boot( msg::Type crash = {})
   {
      static bool first = true;
      if( std::exchange( first, false)) demo::boot();
      domain().model.transaction.log = log();
      domain().singleton( cc::communication::instance::identity::service::manager, peer( "service-manager").handle);
      ::setenv( "DEMO_CRASH_AFTER", crash != msg::Type{} ? std::to_string( int( crash)).c_str() : "0", 1);
      ::setenv( "DEMO_PID", std::to_string( ::getpid()).c_str(), 1);
      manager = start( "/repo/middleware/transaction/bin/casual-transaction-manager");
      ::setenv( "DEMO_CRASH_AFTER", "0", 1);
      pump();
   }

   inline cc::transaction::ID begin( Peer& owner) { return cc::transaction::id::create( owner.handle);}

   inline void involve( Peer& resource, const cc::transaction::ID& trid)
   {
      tr::external::Involved m;
      m.process = resource.handle;
      m.trid = trid;
      m.correlation = cc::strong::correlation::id::generate();
      send( manager, m);
      pump( 30);
   }

   template< typename Request>
   cc::strong::correlation::id ask( Peer& owner, const cc::transaction::ID& trid)
   {
      Request m{ owner.handle};
      m.trid = trid;
      if constexpr( requires{ m.resource;}) m.resource = cc::strong::resource::id{ 500};
      m.correlation = cc::strong::correlation::id::generate();
      send( manager, m);
      pump( 30);
      return m.correlation;
   }

   template< typename Request>
   void answer( Peer& resource, const Request& request, xa code)
   {
      auto reply = msg::reverse::type( request);
      reply.process = resource.handle;
      reply.trid = request.trid;
      reply.resource = request.resource;
      reply.state = code;
      send( manager, reply);
      pump( 30);
   }

   //! the resource shall have got the request. Answers it.
   template< typename Request>
   void serve( Peer& resource, xa code, const std::string& text)
   {
      auto request = take< Request>( resource);
      expect( request.has_value(), text);
      answer( resource, *request, code);
   }

   //! the channel of an external resource is gone
   inline void lose( Peer& resource)
   {
      msg::event::ipc::Destroyed event;
      event.process = resource.handle;
      send( manager, event);
      pump( 30);
   }

   inline void gone() { for( auto pid : children) ::waitpid( pid, nullptr, 0); children.clear();}
}
