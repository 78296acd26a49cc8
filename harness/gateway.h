//! another domain, at the other end of a tcp connection
#pragma once

#include "vkc.h"

#include "common/communication/tcp/message.h"
#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/message/transaction.h"
#include "common/message/event.h"
#include "queue/common/ipc/message.h"
#include "domain/message/discovery.h"
#include "domain/discovery/instance.h"
#include "gateway/message.h"
#include "gateway/message/protocol.h"

namespace vkg
{
   namespace cc = casual::common;
   using Complete = cc::communication::tcp::message::Complete;
   using Type = cc::message::Type;
   using Version = casual::gateway::message::protocol::Version;

   namespace msg = casual::common::message;
   namespace txm = casual::common::message::transaction;
   namespace tr = casual::common::message::transaction::resource;
   namespace conv = casual::common::message::conversation;
   namespace qg = casual::queue::ipc::message::group;
   namespace disc = casual::domain::message::discovery;

   template< typename M>
   vk::bytes wire( const M& message)
   {
      auto complete = cc::serialize::native::complete< Complete>( message);
      auto header = reinterpret_cast< const std::uint8_t*>( complete.header_data());
      vk::bytes result( header, header + cc::communication::tcp::message::header::size);
      auto payload = reinterpret_cast< const std::uint8_t*>( complete.payload.data());
      result.insert( result.end(), payload, payload + complete.payload.size());
      return result;
   }

   //! takes the first complete message out of data
   inline std::optional< Complete> take( vk::bytes& data)
   {
      constexpr auto header = cc::communication::tcp::message::header::size;
      if( long( data.size()) < header) return {};
      Complete result;
      std::memcpy( result.header_data(), data.data(), header);
      long size = result.size();
      if( size < 0 || size > 10'000'000) vk::violation( "a message with an impossible size is written");
      if( long( data.size()) < header + size) return {};
      auto begin = reinterpret_cast< const std::byte*>( data.data()) + header;
      result.payload.assign( begin, begin + size);
      result.offset = size;
      data.erase( data.begin(), data.begin() + header + size);
      return result;
   }

   struct Remote
   {
      std::string name;
      Version version = Version::current;
      int fd = -1;
      bool open{};                   //!< the connection is up (as seen from here)
      cc::process::Handle handle;    //!< the local end, to other processes of the domain
      std::map< Type, std::function< void( Complete&)>> handlers;
      bool full{};                   //!< nothing can be written
      bool breaks{};                 //!< the next write fails
      long taken = -1;               //!< bytes that can be written before it is full

      vk::kernel::Stream* stream() { return vk::kernel::stream( fd);}

      template< typename M, typename F>
      Remote& on( F&& callback)
      {
         handlers[ M::type()] = [callback = std::forward< F>( callback)]( Complete& complete) mutable
         {
            M message;
            cc::serialize::native::complete( complete, message);
            callback( message);
         };
         return *this;
      }

      template< typename M>
      void push( const M& message)
      {
         if( auto s = stream())
         {
            auto data = wire( message);
            s->in.insert( s->in.end(), data.begin(), data.end());
         }
      }

      //! the connection is established
      void attach( vk::kernel::Stream& s)
      {
         fd = s.fd;
         open = true;
         full = false; breaks = false; taken = -1;
         s.write_limit = [this]( long wanted) -> long
         {
            if( full) return -1;
            if( wanted == -1) return 0;
            if( breaks)
            {
               breaks = false;
               open = false;
               if( auto s = stream()) s->reset = true;
               return -1;
            }
            if( taken >= 0)
            {
               auto result = std::min( wanted, taken);
               if( result < wanted) { full = true; taken = -1;}
               else taken -= result;
               return result == 0 ? -1 : result;
            }
            return wanted;
         };
         s.on_write = [this]{ read();};
      }

      void read()
      {
         auto s = stream();
         if( ! s) return; // closed by the program
         while( auto complete = take( s->out))
         {
            auto found = handlers.find( complete->type());
            if( found == handlers.end()) vk::violation( "unexpected message", "to " + name + ": " + vkc::text( complete->type()));
            found->second( *complete);
            s = stream();
            if( ! s) return;
         }
      }

      void close( bool reset)
      {
         open = false;
         if( auto s = stream()) { if( reset) s->reset = true; else s->peer_closed = true;}
      }

      std::string text()
      {
         std::ostringstream out;
         out << name << open << full << breaks << ' ' << taken << ' ' << fd << ' ' << vkc::text( handle);
         return out.str();
      }
   };

   inline cc::buffer::Payload payload( const std::string& text)
   {
      cc::buffer::Payload result;
      result.type = ".binary/";
      for( auto c : text) result.data.push_back( std::byte( c));
      return result;
   }
   inline std::string text( const cc::buffer::Payload& payload)
   {
      return { reinterpret_cast< const char*>( payload.data.data()), payload.data.size()};
   }
}
