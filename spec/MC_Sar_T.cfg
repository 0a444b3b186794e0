CONSTANTS
 N = 5
 Border = 2
SPECIFICATION Spec
INVARIANTS LowestMeeting AcceptedByJudge MeetingAcceptedByJudge ImagedSide NeverOffTerrain
