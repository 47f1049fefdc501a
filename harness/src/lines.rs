pub const LINES_RAW: &[&str] = &[
  "@badge-info=subscriber/1;badges=moderator/1;color=#0000FF;display-name=Name;emotes=25:0-4;id=e9d998c;room-id=1114 :jun1!jun1@jun1.tmi.twitch.tv PRIVMSG #paj :dank",
  "@a;b=c;=d;;e= :x PING :y",
  ":a!b@c JOIN #d",
];
