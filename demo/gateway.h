//! a gateway group among peers, and remote domains at the other end of real connections (loopback)
#pragma once
#include "peers.h"
#include "common/communication/tcp.h"
#include "common/communication/tcp/message.h"
#include "common/communication/select.h"
#include "common/message/conversation.h"
#include "queue/common/ipc/message.h"
#include "domain/message/discovery.h"
#include "domain/discovery/instance.h"
#include "gateway/message.h"
#include "gateway/message/protocol.h"

#include <poll.h>

namespace demo::gateway
{
   namespace gm = casual::gateway::message;
   namespace tr = msg::transaction::resource;
   namespace conv = msg::conversation;
   namespace qg = casual::queue::ipc::message::group;
   namespace disc = casual::domain::message::discovery;
   using Version = gm::protocol::Version;
   namespace tcp = cc::communication::tcp;

   inline cc::process::Handle group;

   //! the remote domain
   struct Remote
   {
      tcp::Duplex device;
      std::vector< tcp::message::Complete> unhandled;
      bool lost{};

      template< typename M>
      void send( const M& message) { cc::communication::device::blocking::send( device, message);}

      template< typename M>
      std::optional< M> take( int ms = 1500)
      {
         auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds( ms);
         do
         {
            for( auto i = unhandled.begin(); i != unhandled.end(); ++i)
               if( i->type() == M::type())
               {
                  M message;
                  cc::serialize::native::complete( *i, message);
                  unhandled.erase( i);
                  return message;
               }
            pump( 5);
            pollfd p{ device.connector().descriptor().value(), POLLIN, 0};
            if( ! lost && ::poll( &p, 1, 5) > 0)
            {
               try { if( auto complete = cc::communication::device::blocking::next( device)) unhandled.push_back( std::move( complete)); }
               catch( ...) { lost = true;}
            }
         }
         while( std::chrono::steady_clock::now() < end);
         return {};
      }

      //! is the connection closed within the time?
      bool closed( int ms)
      {
         auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds( ms);
         while( ! lost && std::chrono::steady_clock::now() < end)
         {
            pump( 5);
            pollfd p{ device.connector().descriptor().value(), POLLIN, 0};
            if( ::poll( &p, 1, 5) > 0)
            {
               try { if( auto complete = cc::communication::device::blocking::next( device)) unhandled.push_back( std::move( complete)); }
               catch( ...) { lost = true;}
            }
         }
         return lost;
      }

      void close() { device.connector().socket() = {}; lost = true;}
   };

   inline void start_group( const std::string& name)
   {
      auto bin = std::string( "/repo/middleware/gateway/bin/");
      auto connector = scratch + "/bin/casual-gateway-group-tcp-logical-connect";
      std::filesystem::copy_file( bin + "casual-gateway-group-tcp-logical-connect", connector, std::filesystem::copy_options::overwrite_existing);
      group = start( bin + name);
   }

   inline void neighbours()
   {
      domain().singleton( cc::communication::instance::identity::service::manager, peer( "service-manager").handle);
      domain().singleton( cc::communication::instance::identity::transaction::manager, peer( "transaction-manager").handle);
      domain().singleton( cc::communication::instance::identity::queue::manager, peer( "queue-manager").handle);
      domain().singleton( cc::communication::instance::identity::gateway::manager, peer( "gateway-manager").handle);
      domain().singleton( casual::domain::discovery::instance::identity, peer( "discovery").handle);
      peer( "discovery").on< disc::api::provider::registration::Request>( []( auto& m){ demo::send( m.process, msg::reverse::type( m));});
      ::signal( SIGPIPE, SIG_IGN);
   }

   namespace outbound
   {
      inline std::vector< std::unique_ptr< tcp::Listener>> listeners;
      inline std::vector< std::string> addresses;

      inline std::string free_address()
      {
         for( int port = 21000 + ::getpid() % 20000; ; ++port)
         {
            auto address = "127.0.0.1:" + std::to_string( port);
            try
            {
               listeners.push_back( std::make_unique< tcp::Listener>( tcp::Address{ address}));
               return address;
            }
            catch( ...) {}
         }
      }

      //! the remote end of the next connection to the address, once both have agreed
      inline std::unique_ptr< Remote> accept( int index, const std::string& name, Version version = Version::current)
      {
         auto result = std::make_unique< Remote>();
         result->device = tcp::Duplex{ (*listeners[ index])()};
         auto request = result->take< gm::domain::connect::Request>( 3000);
         if( ! request) leave( 2, "no logical connect");
         auto reply = msg::reverse::type( *request);
         reply.version = version;
         reply.domain = cc::domain::Identity{ cc::strong::domain::id::generate(), name};
         result->send( reply);
         pump( 200);
         return result;
      }

      //! @return the local handle of the connection
      inline cc::process::Handle handle( const std::string& name)
      {
         for( int i = 0; i < 20; ++i)
         {
            auto message = take< tr::external::Instance>( peer( "transaction-manager"), 1500);
            if( message && message->description == name) return message->process;
         }
         leave( 2, "the connection is not told to the transaction manager");
      }

      inline void boot( int connections)
      {
         demo::boot();
         neighbours();
         for( int i = 0; i < connections; ++i) addresses.push_back( free_address());
         peer( "gateway-manager").on< gm::outbound::Connect>( []( auto& m)
         {
            group = m.process;
            gm::outbound::configuration::update::Request request{ peer( "gateway-manager").handle};
            request.model.alias = "out";
            for( auto& a : addresses) request.model.connections.emplace_back().address = a;
            demo::send( m.process, request);
         });
         start_group( "casual-gateway-outbound-group");
      }
   }

   inline cc::buffer::Payload payload( const std::string& text)
   {
      cc::buffer::Payload result;
      result.type = ".binary/";
      for( auto c : text) result.data.push_back( std::byte( c));
      return result;
   }
   inline std::string text( const cc::buffer::Payload& p) { return { reinterpret_cast< const char*>( p.data.data()), p.data.size()};}

   inline msg::service::call::callee::Request call( Peer& caller, const std::string& service, const cc::transaction::ID& trid = {})
   {
      msg::service::call::callee::Request m{ caller.handle};
      m.correlation = cc::strong::correlation::id::generate();
      m.service.name = service;
      m.trid = trid;
      m.buffer = payload( "request");
      return m;
   }
}
