#include "vkc.h"
#include "common/communication/instance.h"
#include <filesystem>
#include <sys/wait.h>
#include <unistd.h>

namespace vkc
{
   int main( int argc, char** argv, vk::Options options, std::function< void( const std::string&)> body)
   {
      if( ! std::getenv( "VK_SCRATCH"))
      {
         // a fresh environment, and a scratch directory that is removed afterwards
         char name[] = "/tmp/casual-vk-XXXXXX";
         if( ! ::mkdtemp( name)) { std::perror( "mkdtemp"); return 2;}
         std::string scratch = name;
         for( auto d : { "/ipc", "/tmp", "/persistent", "/home"}) std::filesystem::create_directories( scratch + d);
         auto set = []( const char* n, const std::string& v){ ::setenv( n, v.c_str(), 1);};
         set( "VK_SCRATCH", scratch);
         set( "CASUAL_HOME", scratch + "/home");
         set( "CASUAL_DOMAIN_HOME", scratch);
         set( "CASUAL_IPC_DIRECTORY", scratch + "/ipc");
         set( "CASUAL_TRANSIENT_DIRECTORY", scratch + "/tmp");
         set( "CASUAL_PERSISTENT_DIRECTORY", scratch + "/persistent");
         set( "CASUAL_LOG_PATH", std::getenv( "VK_LOG") ? std::getenv( "VK_LOG") : "/dev/null");
         if( std::getenv( "VK_LOG")) set( "CASUAL_LOG", std::getenv( "VK_LOG_PATTERN") ? std::getenv( "VK_LOG_PATTERN") : ".*");
         else ::setenv( "CASUAL_LOG", "", 1);
         set( "TZ", "UTC");

         using fork_type = pid_t(*)();
         auto pid = ::fork();
         if( pid == 0)
         {
            ::execv( "/proc/self/exe", argv);
            std::perror( "execv");
            ::_exit( 2);
         }
         int status = 0;
         ::waitpid( pid, &status, 0);
         std::error_code error;
         std::filesystem::remove_all( scratch, error);
         return WIFEXITED( status) ? WEXITSTATUS( status) : 3;
      }
      return vk::main( argc, argv, std::move( options), std::move( body));
   }
}
