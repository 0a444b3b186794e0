CONSTANTS
 N = 4
 Border = 2
SPECIFICATION Spec
INVARIANTS LowestMeeting AcceptedByJudge MeetingAcceptedByJudge ImagedSide NeverOffTerrain
PROPERTY Terminates
