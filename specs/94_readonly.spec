=== fn tag::readonly::Tag::audio_info
    ensures *r == self.info, //@P15
=== fn tag::readonly::Tag::duration
    ensures r == self.info.duration, //@P15
=== fn tag::readonly::Tag::channel_config
    ensures r == self.info.channel_config, //@P15
=== fn tag::readonly::Tag::sample_rate
    ensures r == self.info.sample_rate, //@P15
=== fn tag::readonly::Tag::avg_bitrate
    ensures r == self.info.avg_bitrate, //@P15
=== fn tag::readonly::Tag::max_bitrate
    ensures r == self.info.max_bitrate, //@P15
=== fn tag::readonly::Tag::filetype
    ensures r@ == self.ftyp@, //@P15
