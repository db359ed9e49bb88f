FIXED += [
    ("C05", "query every method when multi requests are disabled", "with batch size 1, SmartProtocol.query returned only the first method of a multi-method query"),
    ("C06", "complete paged lists of individually queried methods", "a paged list was returned truncated after its first page when its method was queried individually"),
    ("C06", "do not fail on paged responses that contain no list", "a response announcing more entries but holding no list raised StopIteration"),
    ("C14", "report the total http timeout as a timeout error", "the total HTTP timeout surfaced as a generic KasaException instead of TimeoutError"),
    ("C14", "keep the request delay after every kind of failed http request", "after an OS error, a request failing in another way cleared the pacing of the following one"),
    ("C10", "raise a library exception for klap responses that are not json", "a KLAP answer that is not UTF-8 JSON escaped as ValueError"),
    ("C08", "report requests a camera hub fails to forward to a child", "a camera hub's own error for a forwarded request became a result or a KeyError"),
    ("C11", "raise a library exception for malformed aes transport responses", "malformed handshake, login and passthrough answers escaped as KeyError, TypeError or ValueError"),
    ("C12", "report camera handshake replies without data as authentication errors", "a handshake reply without data escaped as KeyError"),
    ("C12", "encrypt camera commands after a secure login follows a plain one", "after a plain login, commands of a later secure session were sent unencrypted"),
    ("C13", "handle unknown error codes in the ssl transport", "an unknown or missing error code escaped as ValueError"),
    ("C15", "redact responses to single smart requests in the debug log", "responses to single requests were logged unredacted"),
    ("C15", "do not log the password hash when logging in over ssl", "the login request with the password hash was logged"),
    ("C17", "report iot cameras as unsupported devices instead of raising KeyError", "connecting to a legacy camera raised KeyError"),
    ("C18", "ignore datagrams from other ports before marking a host as seen", "a datagram from an unrelated port made discovery ignore the host's real answer"),
    ("C18", "report malformed discovery responses as invalid devices", "malformed answers raised AttributeError, KeyError or TypeError into the event loop, discover_single then timed out"),
    ("C18", "report legacy discovery responses without a protocol as unsupported", "a legacy answer with a type that has no protocol was reported as a device whose protocol is None"),
    ("C19", "send the alarm volume as the device expects it when set by level", "setting the alarm volume by level sent the number, so the device's stored volume could not be read back (KeyError)"),
    ("C20", "validate the brightness given with a color temperature", "a brightness outside 0..100 given with a colour temperature was sent to the device"),
    ("C20", "validate the brightness of a light state and send only known keys", "a light state with a brightness outside 0..100 was sent, and light_on / transition were sent as settings the device does not know"),
    ("C21", "keep child data of modules that were not queried", "when only some modules of a hub child were due (one failing module is retried after 30 s), the data of all its other modules was dropped"),
    ("C21", "repeat the initialization when the first update failed", "a device whose first update failed had no modules and raised in every later update"),
    ("C21", "raise a library error when the components cannot be read", "an error instead of the component list escaped update() as TypeError"),
    ("C22", "keep the children when their components cannot be read", "an error instead of the children's component list escaped update() as TypeError"),
    ("C22", "create camera hub children that do not answer at first", "a new child that did not answer made the hub's update() raise UnboundLocalError"),
    ("C23", "keep the data of strip sockets apart", "the parent and all sockets of a strip shared nested data, so each socket's usage and rules were the last socket's"),
    ("C24", 'refresh the system information of strip sockets', 'sockets of a strip kept showing the signal strength and other data the strip had when they were created'),
    ("C25", 'accept devices without a working energy meter', 'update() raised KeyError for a device that announces a meter it then reports as unsupported'),
    ("C26", 'calculate on_since across clock and utc offset changes', "on_since was an hour off across a daylight saving change, and never moved when the device's clock was set back"),
    ("C26", 'compare on_since times of strip sockets across utc offset changes', 'in the repeated hour a strip showed the on-since time of a later socket'),
    ("C26", 'default to UTC for all unknown timezone indexes', 'update() raised TypeError or KeyError for a missing or negative time zone index'),
    ("C26", 'report unsupported timezones without a key', 'setting a time with an offset the device does not know raised UnboundLocalError'),
    ("C26", 'use the reported offset for cameras without a valid zone id', 'the time of a camera with an empty zone id raised AttributeError'),
    ("C27", 'save presets at the index listed by the device', 'legacy light strips list effects before presets (KL430): saving "Light preset 3" overwrote the effect at index 0 of the device'),
    ("C27", 'save presets behind effects at their place in the list', 'SMART light strips (L920): saving "Light preset 2" behind effects overwrote an effect, since effects were not counted'),
    ("C27", 'refuse to save presets without a brightness', 'saving a preset without brightness on a light that only dims sent a list with null'),
    ("C27", 'save only light values in presets', 'saving the current state of a light (light_on set) stored light_on and transition in the preset'),
    ("C28", 'report the brightness of effects started elsewhere', 'an effect started on the bulb itself or in another app: brightness raised KeyError (current_rule_id of a list read up to a day ago) or was that of the effect before'),
    ("C28", 'accept plain effect names that happen to be base64', 'a scene named e.g. "Birthday" without encoding: UnicodeDecodeError, the effects could not be used at all'),
    ("C28", 'keep the stored name of effects when setting their brightness', 'setting the brightness of an effect renamed it on the device to the decoded or default name'),
    ("C30", 'send the values of dimmer button actions and fade types', 'IotDimmer.set_button_action and set_fade_type with enum members sent text like "ButtonAction.NoAction" instead of the value, so devices refused them'),
    ("C30", 'refuse empty alarm sounds', 'alarm sound "" and volume "" passed the truthiness tests of the validation and were sent to the device'),
    ("C30", 'report idle thermostats with a low battery as idle', 'a heating valve whose only reported state is low_battery was shown as unknown instead of idle'),
    ("C32", 'keep the consumables of each vacuum apart', 'two vacuums shared the readings of their consumables (class-level dict): each showed the values of the one updated last, or raised KeyError'),
    ("C32", 'leave the reported vacuum errors in the device state', 'reading the error of a vacuum removed it from the device state (errors.pop)'),
    ("C32", 'leave the reported clean records in the device state', 'reading the clean records replaced the last record in the device state by a dict'),
    ("C33", 'try both login versions when trying all connections', 'candidates were keyed without the login version, so devices with the first AES login (e.g. P100 with old firmware) were never found'),
    ("C34", 'list networks of devices that report fewer details', 'wifi_scan raised KeyError on vacuums, whose networks have no cipher_type, channel and bssid'),
    ("C34", 'escape spaces in stream credentials as %20', 'a space in the account was put into the stream address as "+", which stands for itself there'),
    ("C35", 'turn on behavior mode follows the preset', 'choosing a turn-on preset kept the mode (last_status with an index), and both behaviors were sent as soft and hard, names the bulb does not know, instead of soft_on and hard_on'),
    ("C35", 'let light presets modify change temperatures and refuse negative indexes', 'presets modify --temperature failed with AttributeError, and index -1 modified the last preset'),
    ("C35", 'make the turn_on_behavior command work', 'the command always failed with TypeError (its decorators were in the wrong order); --preset 0 counted as not given; --last did not change the mode'),
    ("C35", 'make the schedule commands work', 'schedule list and delete always failed with TypeError (decorators in the wrong order), and list reported that there are no rules after listing them'),
    ("C35", 'do not ask to confirm timezones that match exactly', 'time set --timezone asked for a confirmation saying there is no exact match for zones which legacy devices list by name'),
    ("C35", 'one failing device does not end the discover command', 'a device that answered discovery and then failed to update ended kasa discover with an error, so that no other device was shown'),
    ("C35", 'discover config tells the login version', 'the options printed by discover config did not make the connection found when it has another login version than 2'),
    ("C35", 'end the search for an alias when discovery fails', 'kasa --alias hung forever when discovery raised an error, and searched twice instead of three times'),
    ("C36", 'redact children of the same model in dump_devinfo', 'the children of power strips and dimmer fans were dumped with their MAC addresses, names, ids and location'),
    ("C36", 'dump legacy devices that cannot answer all queries at once', 'when the last combined query of a legacy device failed, the dump ended with a KeyError instead of using the single answers'),
    ("C36", 'dump hubs with children that do not respond', 'a hub with one child that does not answer could not be dumped (KeyError)'),
    ("C37", "tell whether a camera's battery is charging by what it reports", 'a battery camera was shown as charging always, whatever it reported'),
    ("C37", 'show the last alert of a leak sensor on a hub', 'the last alert of a triggered leak sensor behind a hub could not be read (KeyError)'),
    ("C39", "let old meters' get_daystat and get_monthstat take kwh again", 'energy.get_daystat(kwh=...) and get_monthstat(kwh=...) of older meters raised TypeError: the old names were those of Usage'),
    ("C40", 'show only the battery readings a camera reports', 'battery_temperature and battery_voltage of a camera that does not report them raised KeyError'),
    ("C35", 'print the login version in the options of discover config', 'devices with login version 1 could not be reached with the options discover config printed'),
    ("C35", 'return the time when the time group is called', 'kasa --json time printed null'),
    ("C35", 'set the wall clock time of a device in another timezone', 'time sync set the wall clock of the host on a device in another timezone'),
    ("C19", 'refuse values that are not a number in the range of a feature', 'a feature with a range accepted NaN and passed it to the setter'),
    ("C43", 'fill the placeholder of the message about an unreadable response', 'the debug message about an unreadable response was written with an unfilled %s'),
    ("C43", 'fill the placeholders of the messages about motion sensors', 'the warnings about motion sensors without readings were written with an unfilled %r'),
    ("C44", 'do not update a device twice at the same time', 'two updates of a hub at the same time raised KeyError, left children that were not ready, or lost children, when the list of children changed'),
    ("C37", 'read the night mode settings of the led', 'reading the night hours of the indicator always raised KeyError'),
    ("C26", 'show the time of the strip for its sockets', 'time and timezone of the socket of a legacy strip raised KeyError'),
]
