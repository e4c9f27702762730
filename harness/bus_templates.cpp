// Instantiates the member templates of lp::bus::Bus, which the library itself never uses: their
// bodies come from /repo's Bus.h, this file only makes the front end instantiate them.
#include <lamppost/bus/Bus.h>

namespace lpv {
  typedef std::function<void(std::shared_ptr<lp::bus::ActionProvider>, std::string, lp::messages::Datagram)> ProviderCallback;

  std::shared_ptr<lp::bus::Subscriber> createSubscriber(lp::bus::Bus& bus, std::string topic) { return bus.CreateSubscriber(topic); }
  std::shared_ptr<lp::bus::Subscriber> createSubscriberWithCallback(lp::bus::Bus& bus, std::string topic, lp::bus::DatagramCallbackType callback) { return bus.CreateSubscriber(topic, callback); }
  std::shared_ptr<lp::bus::Publisher> createPublisher(lp::bus::Bus& bus, std::string topic) { return bus.CreatePublisher(topic); }
  std::shared_ptr<lp::bus::ActionProvider> createActionProvider(lp::bus::Bus& bus, std::string topic, ProviderCallback callback) { return bus.CreateActionProvider(topic, callback); }
  std::shared_ptr<lp::bus::ActionConsumer> createActionConsumer(lp::bus::Bus& bus, std::string topic) { return bus.CreateActionConsumer(topic); }
}
