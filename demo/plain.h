//! For demonstrations that only use the libraries: a scratch environment.
#pragma once
#include <cstdlib>
#include <filesystem>
#include <iostream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>

namespace demo
{
   //! runs again, in a child, with an environment of its own. To be called first.
   inline void boot( char** argv)
   {
      if( std::getenv( "DEMO_SCRATCH")) return;
      char name[] = "/tmp/demo-XXXXXX";
      if( ! ::mkdtemp( name)) ::_exit( 2);
      std::string scratch = name;
      for( auto d : { "/ipc", "/tmp", "/persistent", "/home"}) std::filesystem::create_directories( scratch + d);
      auto set = []( const char* n, const std::string& v){ ::setenv( n, v.c_str(), 1);};
      set( "DEMO_SCRATCH", scratch);
      set( "CASUAL_HOME", scratch + "/home");
      set( "CASUAL_DOMAIN_HOME", scratch);
      set( "CASUAL_IPC_DIRECTORY", scratch + "/ipc");
      set( "CASUAL_TRANSIENT_DIRECTORY", scratch + "/tmp");
      set( "CASUAL_PERSISTENT_DIRECTORY", scratch + "/persistent");
      set( "CASUAL_LOG_PATH", "/dev/null");
      auto pid = ::fork();
      if( pid == 0)
      {
         ::alarm( 60);
         ::execv( "/proc/self/exe", argv);
         ::_exit( 2);
      }
      int status = 0;
      ::waitpid( pid, &status, 0);
      std::error_code error;
      if( scratch.starts_with( "/tmp/demo-")) std::filesystem::remove_all( scratch, error);
      ::_exit( WIFEXITED( status) ? WEXITSTATUS( status) : 3);
   }

   [[noreturn]] inline void leave( int code, const std::string& text)
   {
      std::cout << ( code == 0 ? "OK: " : "FAILED: ") << text << std::endl;
      ::_exit( code);
   }
   inline void expect( bool ok, const std::string& text) { if( ! ok) leave( 1, text); std::cout << "   " << text << '\n';}
}
