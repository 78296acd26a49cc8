//! the service manager among peers
#pragma once
#include "peers.h"
#include "service/forward/instance.h"
#include "domain/discovery/instance.h"
#include "domain/message/discovery.h"

namespace demo::sm
{
   using Semantic = msg::service::lookup::request::context::Semantic;
   using Requester = msg::service::lookup::request::context::Requester;
   inline cc::process::Handle manager;

   //! @param configure may change the configuration model
   inline void boot( std::function< void( casual::configuration::Model&)> configure = {})
   {
      demo::boot();
      if( configure) configure( domain().model);
      domain().singleton( casual::service::forward::instance::identity, peer( "forward").handle);
      auto& discovery = peer( "discovery");
      domain().singleton( casual::domain::discovery::instance::identity, discovery.handle);
      discovery.on< casual::domain::message::discovery::api::provider::registration::Request>( []( auto& request) { send( request.process, msg::reverse::type( request));});
      domain().singleton( cc::communication::instance::identity::transaction::manager, peer( "tm").handle);
      manager = start( "/repo/middleware/service/bin/casual-service-manager", { "casual-service-forward"});
      pump();
   }

   inline void advertise( Peer& server, std::vector< std::string> add, std::vector< std::string> remove = {})
   {
      msg::service::Advertise m{ server.handle};
      for( auto& name : add) { auto& s = m.services.add.emplace_back(); s.name = name;}
      m.services.remove = remove;
      send( manager, m);
      pump( 30);
   }

   inline cc::strong::correlation::id lookup( Peer& caller, const std::string& service, Semantic semantic = {}, std::optional< casual::platform::time::point::type> deadline = {})
   {
      msg::service::lookup::Request m{ caller.handle};
      m.requested = service;
      m.context.semantic = semantic;
      if( deadline) m.deadline = *deadline;
      m.correlation = cc::strong::correlation::id::generate();
      send( manager, m);
      pump( 30);
      return m.correlation;
   }

   inline void ack( Peer& server, const cc::strong::correlation::id& correlation)
   {
      msg::service::call::ACK m;
      m.metric.process = server.handle;
      m.correlation = correlation;
      m.metric.correlation = correlation;
      send( manager, m);
      pump( 30);
   }

   inline void exits( const cc::process::Handle& process)
   {
      msg::event::process::Exit event;
      event.state.pid = process.pid;
      event.state.reason = decltype( event.state.reason)::exited;
      send( manager, event);
      pump( 30);
   }
}
