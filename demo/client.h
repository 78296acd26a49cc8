//! A XATMI and TX client in a process of its own; the demonstration plays the service manager, the
//! transaction manager and the server ("server").
#pragma once
#include "peers.h"
#include "casual/xatmi.h"
#include "casual/tx.h"
#include "common/message/conversation.h"
#include "common/communication/instance.h"
#include <cstring>

// (casual undefines these)
#define TX_OK 0
#define TX_ROLLBACK -2
#define TX_PROTOCOL_ERROR -5

namespace demo
{
   namespace sm = casual::common::message::service;
   namespace txm = casual::common::message::transaction;

   inline std::vector< char> bytes( const std::string& value) { return { value.begin(), value.end()};}

   inline casual::platform::binary::type data( const std::string& value)
   {
      casual::platform::binary::type result;
      for( auto c : value) result.push_back( static_cast< casual::platform::binary::type::value_type>( c));
      result.push_back( {});
      return result;
   }

   inline sm::call::Reply reply( const sm::call::callee::Request& request, const std::string& text = "reply")
   {
      sm::call::Reply result;
      result.correlation = request.correlation;
      result.buffer.type = "X_OCTET/";
      result.buffer.data = data( text);
      return result;
   }

   inline char* buffer( const std::string& text = "request")
   {
      auto result = ::tpalloc( "X_OCTET", nullptr, 128);
      std::strcpy( result, text.c_str());
      return result;
   }

   //! to be called first: `client` runs in the client's process, and `world` sets up the peers
   inline int run( std::function< void()> world, std::function< void()> client)
   {
      if( std::getenv( "DEMO_CLIENT"))
      {
         scratch = "";
         client();
         std::cout.flush();
         ::_exit( 0);
      }
      boot();
      auto& manager = peer( "service-manager");
      auto& tm = peer( "transaction-manager");
      auto& server = peer( "server");
      domain().singleton( cc::communication::instance::identity::service::manager, manager.handle);
      domain().singleton( cc::communication::instance::identity::transaction::manager, tm.handle);
      manager.on< sm::lookup::Request>( [&server]( auto& request)
      {
         auto reply = msg::reverse::type( request);
         reply.service.name = request.requested;
         reply.state = decltype( reply.state)::idle;
         reply.process = server.handle;
         send( request.process, reply);
      });
      manager.on< sm::lookup::discard::Request>( []( auto& request){ if( request.reply) send( request.process, msg::reverse::type( request));});
      manager.on< sm::Advertise>( []( auto&){});
      manager.on< sm::call::ACK>( []( auto&){});
      tm.on< txm::commit::Request>( []( auto& request)
      {
         auto reply = msg::reverse::type( request);
         reply.trid = request.trid;
         reply.stage = decltype( reply.stage)::commit;
         reply.state = decltype( reply.state)::ok;
         send( request.process, reply);
      });
      tm.on< txm::rollback::Request>( []( auto& request)
      {
         auto reply = msg::reverse::type( request);
         reply.trid = request.trid;
         reply.stage = decltype( reply.stage)::rollback;
         reply.state = decltype( reply.state)::ok;
         send( request.process, reply);
      });
      world();
      auto pid = ::fork();
      if( pid == 0)
      {
         ::prctl( PR_SET_PDEATHSIG, SIGKILL);
         ::alarm( 40);
         std::vector< std::string> values;
         for( auto& v : cc::environment::variable::current()) values.push_back( v);
         values.push_back( "DEMO_CLIENT=1");
         std::vector< char*> environment;
         for( auto& v : values) environment.push_back( v.data());
         environment.push_back( nullptr);
         char* arguments[] = { const_cast< char*>( "client"), nullptr};
         ::execve( "/proc/self/exe", arguments, environment.data());
         ::_exit( 3);
      }
      for( ;;)
      {
         pump( 10);
         int status = 0;
         if( ::waitpid( pid, &status, WNOHANG) == pid)
         {
            if( WIFEXITED( status) && WEXITSTATUS( status) == 0) leave( 0, "as stated");
            leave( 1, "the client ends with " + std::to_string( status));
         }
      }
   }

   //! in the client
   inline void require( bool ok, const std::string& text)
   {
      std::cout << ( ok ? "   " : "FAILED: ") << text << std::endl;
      if( ! ok) ::_exit( 1);
   }
}
