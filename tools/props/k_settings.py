P("C36", "Nodes and libraries run with the settings they are given, or the defaults",
  "The settings of a gateway and of a provider are those of its configuration: each port, id, address, region, key, url and log setting that of its own name, the gateway's network addresses the ip with the port of the configuration that is for clients, gateways, providers or the admin; the search price, offer price and top-up amount the whole numbers that are configured (also with underscores), the register refresh duration and the two inactivity timeouts the durations that are configured. A price or duration that is missing or is not one (such as 0.001 for a price, or 25 for a duration) gives that setting's default (prices of 10^15, a top-up of 10^17, 5 s, 100 ms, 5 s) and changes no other setting; a provider's signature algorithm that is no number up to 255 ends the start. The settings that the client library and the two admin libraries build are those that were set last, in any order, or else the defaults (for a missing retrieval or admin key a new key of version 1), and stay as they are when others are built; without a blockchain key none are built.",
  ["inputs", "histories"], "texts of 2 (4) characters, prices of up to 4 (9) digits or one of five other texts, durations of up to 2 (4) digits in one of five units or one of three other texts, one of them at a time with the others set or not, any log numbers; algorithm texts of up to 3 characters; histories of 2 or 3 (3 or 4) calls of the builders with any values, and all of them; viper is a stand-in that holds what was set, so the environment, the command line and viper's conversions are not covered, nor are the provider's network addresses, which nothing reads",
  "The tests set no configuration and build settings in one order with fixed values.",
  ["gateway/config/config.go", "provider/config/config.go", "client/pkg/fcrclient/builder.go", "client/pkg/fcrclient/client_settings.go", "gateway-admin/pkg/fcrgatewayadmin/builder.go", "provider-admin/pkg/fcrprovideradmin/builder.go"],
  [("Map", "gateway/config/config.go"), ("Map", "provider/config/config.go"), ("SettingsBuilder.Build and setters", "client/pkg/fcrclient/builder.go"), ("SettingsBuilder.Build and setters", "gateway-admin/pkg/fcrgatewayadmin/builder.go"), ("SettingsBuilder.Build and setters", "provider-admin/pkg/fcrprovideradmin/builder.go")])
