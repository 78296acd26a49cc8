//! A small world around one casual manager process: the demonstration plays every other process.
#pragma once
#include "common/communication/ipc.h"
#include "common/communication/ipc/message.h"
#include "common/communication/instance.h"
#include "common/communication/device.h"
#include "common/message/domain.h"
#include "common/message/event.h"
#include "common/message/server.h"
#include "common/message/service.h"
#include "common/message/transaction.h"
#include "common/message/dispatch.h"
#include "common/environment.h"
#include "common/serialize/native/complete.h"
#include "configuration/message.h"

#include <chrono>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <vector>
#include <csignal>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace cc = casual::common;
namespace msg = casual::common::message;

namespace demo
{
   inline std::string scratch;
   inline std::vector< pid_t> children;

   inline void cleanup()
   {
      for( auto pid : children) { ::kill( pid, SIGKILL); ::waitpid( pid, nullptr, 0);}
      children.clear();
      std::error_code error;
      if( scratch.starts_with( "/tmp/demo-")) std::filesystem::remove_all( scratch, error);
   }

   [[noreturn]] inline void leave( int code, const std::string& text)
   {
      if( std::getenv( "DEMO_LOG")) std::filesystem::copy_file( scratch + "/casual.log", std::getenv( "DEMO_LOG"), std::filesystem::copy_options::overwrite_existing);
      std::cout << ( code == 0 ? "OK: " : "FAILED: ") << text << std::endl;
      cleanup();
      ::_exit( code);
   }
   inline void expect( bool ok, const std::string& text) { if( ! ok) leave( 1, text); std::cout << "   " << text << '\n';}

   struct Peer
   {
      std::string name;
      cc::communication::ipc::inbound::Device device;
      cc::process::Handle handle;
      std::map< msg::Type, std::function< void( cc::communication::ipc::message::Complete&)>> handlers;
      std::vector< cc::communication::ipc::message::Complete> unhandled;

      template< typename M, typename F>
      void on( F callback)
      {
         handlers[ M::type()] = [callback]( auto& complete) { M message; cc::serialize::native::complete( complete, message); callback( message);};
      }
   };

   inline std::map< std::string, std::unique_ptr< Peer>> peers;

   inline Peer& peer( const std::string& name)
   {
      auto& result = peers[ name];
      if( ! result)
      {
         result = std::make_unique< Peer>();
         result->name = name;
         result->handle.pid = cc::strong::process::id{ 100000 + int( peers.size())};
         result->handle.ipc = result->device.connector().handle().ipc();
      }
      return *result;
   }

   //! handles everything that has arrived
   inline void pump( int ms = 150)
   {
      auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds( ms);
      do
      {
         for( auto& [ name, p] : peers)
            while( auto complete = cc::communication::device::non::blocking::next( p->device))
            {
               if( auto found = p->handlers.find( complete.type()); found != p->handlers.end()) found->second( complete);
               else p->unhandled.push_back( std::move( complete));
            }
         ::usleep( 2000);
      }
      while( std::chrono::steady_clock::now() < end);
   }

   template< typename M>
   void send( const cc::process::Handle& to, const M& message) { cc::communication::device::blocking::send( to.ipc, message);}

   //! takes the first message of the type (waits up to ms)
   template< typename M>
   std::optional< M> take( Peer& p, int ms = 600)
   {
      auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds( ms);
      do
      {
         pump( 10);
         for( auto i = p.unhandled.begin(); i != p.unhandled.end(); ++i)
            if( i->type() == M::type())
            {
               M message;
               cc::serialize::native::complete( *i, message);
               p.unhandled.erase( i);
               return message;
            }
      }
      while( std::chrono::steady_clock::now() < end);
      return {};
   }

   struct Domain
   {
      casual::configuration::Model model;
      std::map< cc::Uuid, cc::process::Handle> singletons;
      cc::process::Handle connected;
      template< typename I>
      void singleton( const I& identity, const cc::process::Handle& handle)
      {
         singletons[ identity.id] = handle;
         if( ! identity.environment.empty()) cc::environment::variable::set( identity.environment, handle);
      }
   };
   inline Domain& domain() { static Domain& value = *new Domain; return value;}

   //! to be called first
   inline void boot()
   {
      // casual reads some of these at load
      bool again = std::getenv( "DEMO_SCRATCH");
      char name[] = "/tmp/demo-XXXXXX";
      scratch = again ? std::getenv( "DEMO_SCRATCH") : ::mkdtemp( name);
      ::setenv( "DEMO_SCRATCH", scratch.c_str(), 1);
      for( auto d : { "/ipc", "/tmp", "/persistent", "/home", "/bin"}) std::filesystem::create_directories( scratch + d);
      auto set = []( const char* n, const std::string& v){ ::setenv( n, v.c_str(), 1);};
      set( "CASUAL_HOME", scratch + "/home");
      set( "CASUAL_DOMAIN_HOME", scratch);
      set( "CASUAL_IPC_DIRECTORY", scratch + "/ipc");
      set( "CASUAL_TRANSIENT_DIRECTORY", scratch + "/tmp");
      set( "CASUAL_PERSISTENT_DIRECTORY", scratch + "/persistent");
      set( "CASUAL_LOG_PATH", scratch + "/casual.log");
      set( "CASUAL_LOG", std::getenv( "DEMO_LOG") ? ".*" : "error");
      if( ! again)
      {
         char* arguments[] = { const_cast< char*>( "demo"), nullptr};
         ::execv( "/proc/self/exe", arguments);
         ::_exit( 3);
      }

      auto& p = peer( "domain");
      cc::environment::variable::set( "CASUAL_DOMAIN_MANAGER_PROCESS", p.handle);
      p.on< msg::domain::process::lookup::Request>( []( auto& request)
      {
         auto reply = msg::reverse::type( request);
         reply.identification = request.identification;
         if( auto found = domain().singletons.find( request.identification); found != domain().singletons.end()) reply.process = found->second;
         send( request.process, reply);
      });
      p.on< msg::domain::process::connect::Request>( []( auto& request)
      {
         domain().connected = request.information.handle;
         auto reply = msg::reverse::type( request);
         reply.directive = decltype( reply.directive)::approved;
         send( request.information.handle, reply);
      });
      p.on< casual::configuration::message::Request>( []( auto& request)
      {
         auto reply = msg::reverse::type( request);
         reply.model = domain().model;
         send( request.process, reply);
      });
      p.on< casual::configuration::message::stakeholder::registration::Request>( []( auto& request) { send( request.process, msg::reverse::type( request));});
   }

   //! starts a copy of the program (that lives in the scratch directory)
   //! @return the handle it connects to the domain with
   inline cc::process::Handle start( const std::string& path, const std::vector< std::string>& helpers = {})
   {
      std::string file = scratch + "/bin/" + std::filesystem::path( path).filename().string();
      std::filesystem::copy_file( path, file, std::filesystem::copy_options::overwrite_existing);
      for( auto& h : helpers)
      {
         std::ofstream( scratch + "/bin/" + h) << "#!/bin/sh\nexec sleep 60\n";
         ::chmod( ( scratch + "/bin/" + h).c_str(), 0755);
      }
      domain().connected = {};
      auto pid = ::fork();
      if( pid == 0)
      {
         ::prctl( PR_SET_PDEATHSIG, SIGKILL);
         std::vector< std::string> values;
         for( auto& v : cc::environment::variable::current()) values.push_back( v);
         std::vector< char*> environment;
         for( auto& v : values) environment.push_back( v.data());
         environment.push_back( nullptr);
         char* arguments[] = { file.data(), nullptr};
         ::execve( file.c_str(), arguments, environment.data());
         ::_exit( 99);
      }
      children.push_back( pid);
      for( int i = 0; i < 500 && ! domain().connected.ipc; ++i)
      {
         pump( 10);
         int status = 0;
         if( ::waitpid( pid, &status, WNOHANG) == pid) leave( 2, "the program ended at start");
      }
      if( ! domain().connected.ipc) leave( 2, "the program does not connect");
      return domain().connected;
   }
}
