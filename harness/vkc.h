//! casual on top of the virtual kernel: peers that speak casual messages
#pragma once

#include "vk.h"

#include "common/communication/ipc.h"
#include "common/communication/ipc/message.h"
#include "common/communication/instance.h"
#include "common/message/domain.h"
#include "common/message/event.h"
#include "common/message/server.h"
#include "common/message/type.h"
#include "common/process.h"
#include "common/environment.h"
#include "common/algorithm/random.h"
#include "common/serialize/native/complete.h"
#include "common/stream.h"
#include "configuration/message.h"

#include <set>
#include <sstream>

namespace vkc
{
   namespace cc = casual::common;
   using Complete = cc::communication::ipc::message::Complete;
   using Transport = cc::communication::ipc::message::Transport;
   using Type = cc::message::Type;

   template< typename T>
   std::string text( const T& value)
   {
      std::ostringstream out;
      cc::stream::write( out, value);
      return out.str();
   }

   inline std::string path( const cc::strong::ipc::id& ipc) { return cc::communication::ipc::path( ipc).string();}

   //! readable, deterministic identities: byte pattern with a name
   inline cc::Uuid uuid( int kind, int number)
   {
      cc::Uuid result;
      auto& value = result.get();
      std::memset( value, 0, 16);
      value[ 0] = 0xee; value[ 1] = kind; value[ 2] = number; value[ 3] = number >> 8; value[ 15] = 1;
      return result;
   }

   template< typename M>
   std::vector< vk::bytes> datagrams( const M& message)
   {
      auto complete = cc::serialize::native::complete< Complete>( message);
      std::vector< vk::bytes> result;
      std::size_t offset = 0;
      const std::size_t max = cc::communication::ipc::message::transport::max_payload_size();
      do
      {
         Transport transport{ complete.type(), static_cast< casual::platform::size::type>( complete.size()), complete.correlation()};
         auto count = std::min( max, complete.payload.size() - offset);
         transport.assign( std::span< const std::byte>( complete.payload.data() + offset, count), offset);
         auto data = static_cast< const std::uint8_t*>( transport.data());
         result.emplace_back( data, data + transport.size());
         offset += count;
      }
      while( offset < complete.payload.size());
      return result;
   }

   //! @return the type of a datagram
   inline Type type( const vk::bytes& datagram)
   {
      Transport transport;
      std::memcpy( transport.data(), datagram.data(), datagram.size());
      return transport.type();
   }

   //! reassembles datagrams
   struct Assembler
   {
      std::vector< Complete> parts;

      std::optional< Complete> operator () ( const vk::bytes& datagram)
      {
         auto transport = std::make_unique< Transport>();
         std::memcpy( transport->data(), datagram.data(), datagram.size());
         auto found = std::find_if( parts.begin(), parts.end(), [&]( auto& c){ return c.type() == transport->type() && c.correlation() == cc::strong::correlation::id{ cc::Uuid{ transport->correlation()}} && ! c.complete();});
         if( found == parts.end())
         {
            parts.emplace_back( *transport);
            found = parts.end() - 1;
         }
         else
            found->add( *transport);
         if( ! found->complete()) return {};
         auto result = std::move( *found);
         parts.erase( found);
         return result;
      }
   };

   struct Peer
   {
      std::string name;
      cc::process::Handle handle;
      bool alive = true;
      std::shared_ptr< Assembler> assembler = std::make_shared< Assembler>();
      std::map< Type, std::function< void( Complete&)>> handlers;
      std::function< void( Complete&)> other;

      std::string path() const { return vkc::path( handle.ipc);}
      vk::Endpoint& endpoint() { return *vk::kernel::endpoint( path());}

      template< typename M, typename F>
      Peer& on( F&& callback)
      {
         handlers[ M::type()] = [callback = std::forward< F>( callback)]( Complete& complete) mutable
         {
            M message;
            cc::serialize::native::complete( complete, message);
            callback( message);
         };
         return *this;
      }

      void die()
      {
         alive = false;
         vk::kernel::remove( path());
      }
   };

   inline std::map< std::string, std::unique_ptr< Peer>>& peers() { static auto& value = *new std::map< std::string, std::unique_ptr< Peer>>; return value;}

   //! @param kind, number makes the identity
   inline Peer& peer( const std::string& name, int kind, int number)
   {
      auto& result = peers()[ name];
      result = std::make_unique< Peer>();
      auto& p = *result;
      p.name = name;
      p.handle.pid = cc::strong::process::id{ 10000 + kind * 100 + number};
      p.handle.ipc = cc::strong::ipc::id{ uuid( kind, number)};
      vk::kernel::peer( p.path(), [&p]( const vk::bytes& datagram)
      {
         if( auto complete = ( *p.assembler)( datagram))
         {
            auto found = p.handlers.find( complete->type());
            if( found != p.handlers.end())
               found->second( *complete);
            else if( p.other)
               p.other( *complete);
            else
               vk::violation( "unexpected message", "to " + p.name + ": " + text( complete->type()));
         }
      });
      return p;
   }

   //! puts a message on the queue of `ipc`
   template< typename M>
   void push( const cc::strong::ipc::id& ipc, const M& message)
   {
      auto endpoint = vk::kernel::endpoint( vkc::path( ipc));
      if( ! endpoint || endpoint->fd == -1) return; // nobody listens
      for( auto& datagram : datagrams( message))
         endpoint->queue.push_back( std::move( datagram));
   }

   inline const cc::process::Handle& self() { return cc::process::handle();}

   template< typename M>
   void to_self( const M& message) { push( self().ipc, message);}

   //! the domain manager of the world
   struct Domain
   {
      casual::configuration::Model model;
      std::map< cc::Uuid, cc::process::Handle> singletons;
      std::vector< cc::message::domain::process::connect::Request> connected;
      Peer* peer{};

      template< typename I>
      void singleton( const I& identity, const cc::process::Handle& handle)
      {
         singletons[ identity.id] = handle;
         if( ! identity.environment.empty())
            cc::environment::variable::set( identity.environment, handle);
      }
   };

   inline Domain& domain()
   {
      static Domain& value = *new Domain;
      return value;
   }

   //! creates the world that every manager needs
   inline void boot()
   {
      cc::algorithm::random::generator().seed( 4711);
      auto& d = domain();
      auto& p = vkc::peer( "domain-manager", 1, 1);
      d.peer = &p;
      cc::environment::variable::set( "CASUAL_DOMAIN_MANAGER_PROCESS", p.handle);

      p.on< cc::message::domain::process::lookup::Request>( []( auto& request)
      {
         auto& d = domain();
         auto reply = cc::message::reverse::type( request);
         reply.identification = request.identification;
         if( auto found = d.singletons.find( request.identification); found != d.singletons.end())
            reply.process = found->second;
         push( request.process.ipc, reply);
      });
      p.on< cc::message::domain::process::connect::Request>( []( auto& request)
      {
         domain().connected.push_back( request);
         auto reply = cc::message::reverse::type( request);
         reply.directive = decltype( reply.directive)::approved;
         push( request.information.handle.ipc, reply);
      });
      p.on< casual::configuration::message::Request>( []( auto& request)
      {
         auto reply = cc::message::reverse::type( request);
         reply.model = domain().model;
         push( request.process.ipc, reply);
      });
      p.on< casual::configuration::message::stakeholder::registration::Request>( []( auto& request)
      {
         push( request.process.ipc, cc::message::reverse::type( request));
      });
      p.on< cc::message::event::subscription::Begin>( []( auto&){});
      p.on< cc::message::event::subscription::End>( []( auto&){});
      p.other = []( Complete&){};
   }

   //! environment, scratch directory and re-exec. to be called first in main
   void environment( int argc, char** argv);

   int main( int argc, char** argv, vk::Options options, std::function< void( const std::string&)> body);
}
